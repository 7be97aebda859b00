------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Shapes and index arithmetic.  dims is a sequence of extents; linear     *)
(* indices and coordinates count from 0, positions in sequences from 1.    *)
(***************************************************************************)
EXTENDS Big, FiniteSets

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* products of many huge extents exceed TLC's integers: cap them
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* row-major strides: the product of the later extents
Strides(dims) ==
  [k \in 1..Len(dims) |-> Prod(SubSeq(dims, k + 1, Len(dims)))]
Coords(i, dims, str) == [k \in 1..Len(dims) |-> (i \div str[k]) % dims[k]]
LinIdx(co, str) == SumSeq([k \in 1..Len(co) |-> co[k] * str[k]])
AllCoords(dims) ==
  LET str == Strides(dims) IN [i \in 1..Prod(dims) |-> Coords(i - 1, dims, str)]

AllPos(dims) == \A k \in 1..Len(dims) : dims[k] >= 1
AllNonNeg(dims) == \A k \in 1..Len(dims) : dims[k] >= 0

\* products of the size helpers
SizeFrom(k, dims) == Prod(SubSeq(dims, k + 1, Len(dims)))
SizeTo(k, dims) == Prod(SubSeq(dims, 1, k))
SizeBetween(k, l, dims) ==
  IF k < l THEN Prod(SubSeq(dims, k + 2, l)) ELSE Prod(SubSeq(dims, l + 2, k))

-----------------------------------------------------------------------------
(* Broadcasting, aligned at the last entries.                               *)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Padded(d, n) == [k \in 1..n |-> IF k <= n - Len(d) THEN 1 ELSE d[k - (n - Len(d))]]
Broadcastable(d1, d2) ==
  LET m == MinI(Len(d1), Len(d2))
  IN \A i \in 0..(m - 1) :
       LET x == d1[Len(d1) - i]
           y == d2[Len(d2) - i]
       IN x = y \/ x = 1 \/ y = 1
BroadcastDims(d1, d2) ==
  LET n == MaxI(Len(d1), Len(d2))
      p == Padded(d1, n)
      q == Padded(d2, n)
  IN [k \in 1..n |-> MaxI(p[k], q[k])]
\* the linear index within shape d of the element that stands at coordinates
\* co of the broadcast shape
BcastIdx(co, d) ==
  LET off == Len(co) - Len(d)
      str == Strides(d)
  IN SumSeq([k \in 1..Len(d) |-> IF d[k] = 1 THEN 0 ELSE co[off + k] * str[k]])

-----------------------------------------------------------------------------
(* Slicing.                                                                 *)
CeilDiv(a, b) == IF a = 0 THEN 0 ELSE ((a - 1) \div b) + 1
SliceOk(dims, b, s, st) ==
  \A k \in 1..Len(dims) :
     /\ 0 <= b[k] /\ b[k] < dims[k]
     /\ s[k] >= 0 /\ s[k] <= dims[k] - b[k]      \* without overflow
     /\ st[k] >= 1
\* extents of the result before axes of size 0 are dropped (they count 1)
SliceExt(dims, s, st) ==
  [k \in 1..Len(dims) |-> IF s[k] = 0 THEN 1 ELSE CeilDiv(s[k], st[k])]
SliceDims(dims, s, st) ==
  LET kept == SelectSeq([k \in 1..Len(dims) |-> k], LAMBDA k : s[k] > 0)
  IN [j \in 1..Len(kept) |-> CeilDiv(s[kept[j]], st[kept[j]])]
SliceMap(dims, b, s, st) ==
  LET ext == SliceExt(dims, s, st)
      es == Strides(ext)
      ds == Strides(dims)
      n == Len(dims)
  IN [i \in 1..Prod(ext) |->
        1 + SumSeq([k \in 1..n |->
              (b[k] + (IF ext[k] = 1 THEN 0
                       ELSE (((i - 1) \div es[k]) % ext[k]) * st[k])) * ds[k]])]

-----------------------------------------------------------------------------
(* Squeezing.                                                               *)
SqueezeOk(dims, axes, num) ==
  num >= 0 /\ \A i \in 1..num : 0 <= axes[i] /\ axes[i] < Len(dims)
SqueezeDims(dims, axes, num) ==
  LET gone(k) == dims[k] = 1 /\ (num = 0 \/ \E i \in 1..num : axes[i] = k - 1)
      kept == SelectSeq([k \in 1..Len(dims) |-> k], LAMBDA k : ~gone(k))
  IN [j \in 1..Len(kept) |-> dims[kept[j]]]

-----------------------------------------------------------------------------
(* Windows of convolution and pooling.                                      *)
Reach(k, d) == d * (k - 1) + 1
\* Reach(k, d) <= room, without large products
Fits(k, d, room) == room >= 1 /\ (k <= 1 \/ d <= (room - 1) \div (k - 1))
\* TLC's integers have 32 bits: with a padding of this much, natural numbers
\* (Big.tla) take their place
FarPad(p) == p >= 2 ^ 27
FarRoom(in, p) == NAdd(NofInt(in), NMul(NofInt(2), NofInt(p)))
FarReach(k, d) == NAdd(NMul(NofInt(d), NofInt(k - 1)), NOne)
FitsPadded(in, k, p, d) == IF FarPad(p) THEN NCmp(FarReach(k, d), FarRoom(in, p)) <= 0
                           ELSE Fits(k, d, in + 2 * p)
WinOk(in, k, s, p, d) ==
  k >= 1 /\ s >= 1 /\ p >= 0 /\ d >= 1 /\ FitsPadded(in, k, p, d)
WinOut(in, k, s, p, d) ==
  IF FarPad(p) THEN NToInt(NDiv(NSub(FarRoom(in, p), FarReach(k, d)), NofInt(s)).q) + 1
  ELSE (in + 2 * p - Reach(k, d)) \div s + 1
\* where window o's element f is in an input of in elements; -1: in the padding
WinPos(in, o, s, p, d, f) ==
  LET x == IF FarPad(p)
           THEN LET z == ZAdd(ZMul(ZofInt(o), ZofInt(s)), ZSub(ZMul(ZofInt(d), ZofInt(f)), ZofInt(p)))
                IN IF z.neg \/ ~NFitsInt(z.m) THEN -1 ELSE NToInt(z.m)
           ELSE o * s - p + d * f
  IN IF 0 <= x /\ x < in THEN x ELSE -1

Tail2(s) == SubSeq(s, 3, Len(s))
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
=============================================================================
