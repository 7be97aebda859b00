-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* What every call of the library computes.                                *)
(*                                                                         *)
(* A tensor is [dt, dv, di, dims, data].  Elements come in three kinds:    *)
(*   "s"  small integers (exact values; BigMark stands for a value which   *)
(*        is not an integer below 2^31),                                   *)
(*   "w"  bit patterns as limbs (Ieee.tla), any value,                     *)
(*   "h"  bit patterns as strings, for operations that only move elements. *)
(* A call e is a record with the arguments; In(e, S) are its operand       *)
(* tensors.  Errs(e, S) is the set of error statuses the call may return   *)
(* (empty: it must succeed); OutMeta(e, S) is the shape, type and device   *)
(* of the result; DataOk(e, S, k, data) accepts its elements.              *)
(***************************************************************************)
EXTENDS RealFn, Shapes

SUCCESS == 0          TYPE_MISMATCH == 1    DIMENSIONS_MISMATCH == 2
INVALID_ARGUMENT == 3 NOT_SUPPORTED == 4    ALLOC_FAILED == 5
OUT_OF_RANGE == 6     INTERNAL_ERROR == 7   MATH_ERROR == 8

CPU == 0
CUDA == 1
BigMark == 2147483647

BinaryOps == {"add", "sub", "mul", "div"}
UnaryOps == {"relu", "sqrt", "sigmoid", "tanh"}
ConvOps == {"conv", "conv2d", "conv3d"}
MoveOps == {"slice", "duplicate", "squeeze", "reshape"}
TensorOps == {"create", "full", "cast", "matmul", "dot", "batch_norm", "dropout",
              "pooling", "softmax"} \cup BinaryOps \cup UnaryOps \cup ConvOps \cup MoveOps
ValueOps == {"destroynull", "resolve", "inspect", "index", "bcast", "sizes", "wbcast", "wsizes", "windex",
             "typed", "castto", "dropstat"}

Size(t) == Prod(t.dims)

\* the small-kind image of the mathematical integer v stored as type dt
Small(dt, v) ==
  CASE dt \in {Int8, Uint8, Int16, Uint16} -> Wrap(dt, v)
    [] dt \in {Uint32, Uint64} -> IF v < 0 THEN BigMark ELSE v
    [] OTHER -> v

-----------------------------------------------------------------------------
(* Conversion of one element.                                               *)

FIsZero(f) == f.c = "fin" /\ f.m = <<>>
\* the real value of an element, which must be finite
Val(dt, l) == IF IsFloat(dt) THEN FDyadic(FloatOf(dt, l)) ELSE D(IntOf(dt, l), 0)

\* r is the conversion of x, of type from, to type to
CastOk(from, to, x, r) ==
  IF IsFloat(from)
  THEN LET f == FloatOf(from, x)
       IN IF IsFloat(to)
          THEN LET g == FloatOf(to, r)
               IN CASE f.c = "nan" -> g.c = "nan"
                    [] f.c = "inf" -> g.c = "inf" /\ g.neg = f.neg
                    [] OTHER -> RoundsTo(to, FDyadic(f), g) /\ (f.m = <<>> => g.neg = f.neg)
          ELSE IF f.c # "fin" THEN TRUE        \* not defined by C
          ELSE LET z == DTrunc(FDyadic(f))
               IN IF ZInRange(to, z) THEN IntOf(to, r) = z ELSE TRUE
  ELSE LET z == IntOf(from, x)
       IN IF IsFloat(to) THEN LET g == FloatOf(to, r) IN RoundsTo(to, D(z, 0), g) /\ (z.m = <<>> => ~g.neg)
          ELSE IntOf(to, r) = ZWrap(to, z)

\* small kind: v is an integer
SmallCast(from, to, v) == IF IsFloat(to) THEN v ELSE Small(to, v)

\* conversion of the double xd (limbs) to one element of kind k
FromDouble(k, to, xd, r) ==
  IF k = "w" THEN CastOk(Double, to, xd, r)
  ELSE IF k = "s"
  THEN LET f == FloatOf(Double, xd)
           z == DTrunc(FDyadic(f))
       IN IF f.c # "fin" THEN TRUE
          ELSE IF IsFloat(to)
          THEN IF DEq(D(z, 0), FDyadic(f)) /\ NFitsInt(z.m) /\ NBits(z.m) <= Prec(to)
               THEN r = (IF z.neg THEN -NToInt(z.m) ELSE NToInt(z.m)) ELSE TRUE
          ELSE IF ~ZInRange(to, z) \/ ~NFitsInt(z.m) THEN TRUE
          ELSE r = (IF z.neg THEN -NToInt(z.m) ELSE NToInt(z.m))
  ELSE TRUE

-----------------------------------------------------------------------------
(* One element of a binary operation.                                       *)

SmallBin(op, dt, a, b) ==
  CASE op = "add" -> Small(dt, a + b)
    [] op = "sub" -> Small(dt, a - b)
    [] op = "mul" -> Small(dt, a * b)
    [] op = "div" /\ ~IsFloat(dt) -> Small(dt, TDiv(a, b))
    [] OTHER -> IF b # 0 /\ TDiv(a, b) * b = a THEN TDiv(a, b) ELSE BigMark

FBinOk(op, dt, a, b, r) ==
  LET nan == a.c = "nan" \/ b.c = "nan"
      sgn == a.neg # b.neg
      isnan == r.c = "nan"
      isinf(neg) == r.c = "inf" /\ r.neg = neg
  IN CASE nan -> isnan
       [] op \in {"add", "sub"} ->
            LET bn == IF op = "sub" THEN ~b.neg ELSE b.neg
            IN IF a.c = "inf" THEN IF b.c = "inf" /\ bn # a.neg THEN isnan ELSE isinf(a.neg)
               ELSE IF b.c = "inf" THEN isinf(bn)
               ELSE LET x == IF op = "sub" THEN DSub(FDyadic(a), FDyadic(b)) ELSE DAdd(FDyadic(a), FDyadic(b))
                    IN RoundsTo(dt, x, r) /\ (DIsZero(x) => r.neg = (a.neg /\ bn))
       [] op = "mul" ->
            IF a.c = "inf" \/ b.c = "inf"
            THEN IF FIsZero(a) \/ FIsZero(b) THEN isnan ELSE isinf(sgn)
            ELSE RoundsTo(dt, DMul(FDyadic(a), FDyadic(b)), r) /\ r.neg = sgn
       [] OTHER ->
            IF a.c = "inf" THEN IF b.c = "inf" THEN isnan ELSE isinf(sgn)
            ELSE IF b.c = "inf" THEN FIsZero(r) /\ r.neg = sgn
            ELSE IF FIsZero(b) THEN IF FIsZero(a) THEN isnan ELSE isinf(sgn)
            ELSE QuotRoundsTo(dt, FDyadic(a), FDyadic(b), r) /\ r.neg = sgn

\* signed 32- and 64-bit results outside the type are not defined by C
ZFits(dt, z) == dt \in {Int32, Int64} => ZInRange(dt, z)
ZTDiv(a, b) == Z(a.neg # b.neg, NDiv(a.m, b.m).q)
ZBinOk(op, dt, a, b, r) ==
  LET z == CASE op = "add" -> ZAdd(a, b)
             [] op = "sub" -> ZSub(a, b)
             [] op = "mul" -> ZMul(a, b)
             [] OTHER -> ZTDiv(a, b)
  IN ZFits(dt, z) => r = ZWrap(dt, z)

WideBinOk(op, dt, a, b, r) ==
  IF IsFloat(dt) THEN FBinOk(op, dt, FloatOf(dt, a), FloatOf(dt, b), FloatOf(dt, r))
  ELSE ZBinOk(op, dt, IntOf(dt, a), IntOf(dt, b), IntOf(dt, r))

\* integer quotients which do not exist
DivUndefined(k, dt, a, b) ==
  /\ ~IsFloat(dt)
  /\ IF k = "w"
     THEN LET y == IntOf(dt, b)
          IN \/ y.m = <<>>
             \/ dt \in {Int32, Int64} /\ y = Z(TRUE, NOne)
                   /\ ~ZInRange(dt, ZNeg(IntOf(dt, a)))
     ELSE k = "s" /\ b = 0

-----------------------------------------------------------------------------
(* Sums of products: pairs is a sequence of <<i, j>>, positions in A and B. *)

SmallSum(dt, pairs, X, Y) ==
  Small(dt, FoldLeft(LAMBDA acc, p : acc + X[p[1]] * Y[p[2]], 0, pairs))

WideSumOk(dt, pairs, X, Y, r) ==
  IF IsFloat(dt)
  THEN LET prods == TLCEval([i \in 1..Len(pairs) |->
                        DMul(Val(dt, X[pairs[i][1]]), Val(dt, Y[pairs[i][2]]))])
           sum == DSum(prods)
           mag == DSum([i \in 1..Len(prods) |-> DAbs(prods[i])])
           f == FloatOf(dt, r)
           tol == DAdd(DMul(DScale(DofInt(Len(pairs) + 2), 1 - Prec(dt)), mag),
                       DScale(DofInt(Len(pairs) + 1), QMin(dt)))
       IN f.c = "fin" /\ DLe(DAbs(DSub(FDyadic(f), sum)), tol)
  ELSE LET Step(acc, p) == ZAdd(acc, ZMul(IntOf(dt, X[p[1]]), IntOf(dt, Y[p[2]])))
           sum == FoldLeft(Step, ZZero, pairs)
           mag == FoldLeft(LAMBDA acc, p :
                     ZAdd(acc, ZAbs(ZMul(IntOf(dt, X[p[1]]), IntOf(dt, Y[p[2]])))),
                     ZZero, pairs)
       IN ZFits(dt, mag) => IntOf(dt, r) = ZWrap(dt, sum)

\* result i (from 1) is the sum of products over Pairs(i)
SumsOk(k, dt, Pairs(_), X, Y, data) ==
  \A i \in 1..Len(data) :
     CASE k = "s" -> data[i] = SmallSum(dt, Pairs(i), X, Y)
       [] k = "w" -> WideSumOk(dt, Pairs(i), X, Y, data[i])
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Matrix products.                                                         *)

\* dims of an operand as a matrix (or stack of matrices): a first operand of
\* rank 1 is a row, a second operand of rank 1 a column
AsRows(d) == IF Len(d) = 1 THEN <<1, d[1]>> ELSE d
AsCols(d) == IF Len(d) = 1 THEN <<d[1], 1>> ELSE d
BatchOf(d) == SubSeq(d, 1, Len(d) - 2)
Rows(d) == d[Len(d) - 1]
Cols(d) == d[Len(d)]

MatmulErrs(t, u) ==
  (IF t.dv # CPU \/ u.dv # CPU THEN {NOT_SUPPORTED} ELSE {})
  \cup (IF t.dt # u.dt THEN {NOT_SUPPORTED} ELSE {})
  \cup (IF Len(t.dims) = 0 \/ Len(u.dims) = 0 THEN {INVALID_ARGUMENT}
        ELSE LET d1 == AsRows(t.dims)
                 d2 == AsCols(u.dims)
             IN IF Cols(d1) # Rows(d2) \/ ~Broadcastable(BatchOf(d1), BatchOf(d2))
                THEN {DIMENSIONS_MISMATCH} ELSE {})

MatmulDims(t, u) ==
  LET d1 == AsRows(t.dims)
      d2 == AsCols(u.dims)
      full == BroadcastDims(BatchOf(d1), BatchOf(d2)) \o <<Rows(d1), Cols(d2)>>
      n == Len(full)
  IN IF Len(t.dims) = 1 /\ Len(u.dims) = 1 THEN <<1>>
     ELSE IF Len(u.dims) = 1 THEN SubSeq(full, 1, n - 1)
     ELSE IF Len(t.dims) = 1 THEN DropAt(full, n - 1)
     ELSE full

MatmulPairs(t, u, i) ==
  LET d1 == AsRows(t.dims)
      d2 == AsCols(u.dims)
      b1 == BatchOf(d1)
      b2 == BatchOf(d2)
      bd == BroadcastDims(b1, b2)
      m == Rows(d1)
      n == Cols(d2)
      kk == Cols(d1)
      lin == i - 1
      col == lin % n
      row == (lin \div n) % m
      bco == Coords(lin \div (n * m), bd, Strides(bd))
      o1 == BcastIdx(bco, b1) * m * kk + row * kk
      o2 == BcastIdx(bco, b2) * kk * n + col
  IN [c \in 1..kk |-> <<o1 + c, o2 + (c - 1) * n + 1>>]

-----------------------------------------------------------------------------
(* Generalised inner product.                                               *)

DotErrs(t, u) ==
  LET n == Len(t.dims)
      m == Len(u.dims)
  IN (IF t.dv # CPU \/ u.dv # CPU \/ t.dt # u.dt THEN {NOT_SUPPORTED} ELSE {})
     \cup
     CASE n = 0 \/ m = 0 -> {}
       [] n = 1 /\ m = 1 -> IF t.dims[1] # u.dims[1] THEN {DIMENSIONS_MISMATCH} ELSE {}
       [] n = 2 /\ m = 2 -> IF t.dims[2] # u.dims[1] THEN {DIMENSIONS_MISMATCH} ELSE {}
       [] m = 1 -> IF t.dims[n] # u.dims[1] THEN {INVALID_ARGUMENT} ELSE {}
       [] n > 2 /\ m > 2 -> IF t.dims[n] # u.dims[m - 1] THEN {INVALID_ARGUMENT} ELSE {}
       [] OTHER -> {INVALID_ARGUMENT}

DotDims(t, u) ==
  LET n == Len(t.dims)
      m == Len(u.dims)
  IN CASE n = 0 -> u.dims
       [] m = 0 -> t.dims
       [] n = 1 /\ m = 1 -> <<1>>
       [] m = 1 -> Front(t.dims)
       [] OTHER -> Front(t.dims) \o DropAt(u.dims, m - 1)

DotPairs(t, u, i) ==
  LET n == Len(t.dims)
      m == Len(u.dims)
      lin == i - 1
  IN CASE n = 0 -> << <<1, i>> >>
       [] m = 0 -> << <<i, 1>> >>
       [] m = 1 -> [c \in 1..t.dims[n] |-> <<lin * t.dims[n] + c, c>>]
       [] OTHER ->
          \* operand 2 as [before, contracted, last]
          LET kk == t.dims[n]
              last == u.dims[m]
              rest == Prod(SubSeq(u.dims, 1, m - 2)) * last
              a == lin \div rest          \* position in the first's front
              b == lin % rest
              before == b \div last
              l == b % last
          IN [c \in 1..kk |-> <<a * kk + c, before * kk * last + (c - 1) * last + l + 1>>]

-----------------------------------------------------------------------------
(* Convolution: e.a stride, e.b padding, e.c dilation, e.n[1] groups.       *)

ConvErrs(e, t, u) ==
  LET d == t.dims
      f == u.dims
      n == Len(d)
      g == e.n[1]
      chan == IF n = Len(f) /\ n >= 3
              THEN IF g < 1 THEN {INVALID_ARGUMENT}
                   ELSE (IF d[2] % g # 0 \/ f[1] % g # 0 THEN {INVALID_ARGUMENT} ELSE {})
                        \cup (IF d[2] % g = 0 /\ f[2] # d[2] \div g
                              THEN {DIMENSIONS_MISMATCH} ELSE {})
                        \cup (IF d[2] % g # 0 /\ f[2] # d[2] THEN {DIMENSIONS_MISMATCH} ELSE {})
              ELSE {DIMENSIONS_MISMATCH}
      ns == MinI(Len(e.a), n - 2)
      bad == \E k \in 1..ns : e.a[k] < 1 \/ e.b[k] < 0 \/ e.c[k] < 1
      big == /\ n = Len(f)
             /\ \E k \in 1..ns :
                   /\ e.a[k] >= 1 /\ e.b[k] >= 0 /\ e.c[k] >= 1
                   /\ ~FitsPadded(d[k + 2], f[k + 2], e.b[k], e.c[k])
  IN (IF (e.op = "conv2d" /\ n # 4) \/ (e.op = "conv3d" /\ n # 5)
      THEN {DIMENSIONS_MISMATCH} ELSE {})
     \cup (IF t.dt # Float THEN {NOT_SUPPORTED} ELSE {})
     \cup (IF u.dt # t.dt THEN {TYPE_MISMATCH} ELSE {})
     \cup chan
     \cup (IF n < 3 THEN {DIMENSIONS_MISMATCH} ELSE {})
     \cup (IF bad \/ big THEN {INVALID_ARGUMENT} ELSE {})

ConvDims(e, t, u) ==
  <<t.dims[1], u.dims[1]>> \o
  [k \in 1..(Len(t.dims) - 2) |->
     WinOut(t.dims[k + 2], u.dims[k + 2], e.a[k], e.b[k], e.c[k])]

\* pairs of (filter position, input position) for output element i
ConvPairs(e, t, u, i) ==
  LET od == ConvDims(e, t, u)
      co == Coords(i - 1, od, Strides(od))
      cg == u.dims[2]                      \* channels per group
      og == u.dims[1] \div e.n[1]          \* outputs per group
      grp == co[2] \div og
      ns == Len(od) - 2
      fd == <<cg>> \o Tail2(u.dims)
      fs == Strides(fd)
      is == Strides(t.dims)
      fbase == co[2] * Prod(fd)
      ibase == co[1] * is[1] + grp * cg * is[2]
      At(q) ==                             \* q: position in channel x window
        LET fc == Coords(q - 1, fd, fs)
            pos == [k \in 1..ns |-> WinPos(t.dims[k + 2], co[k + 2], e.a[k], e.b[k], e.c[k], fc[k + 1])]
        IN [ok |-> \A k \in 1..ns : pos[k] >= 0,
            pr |-> <<fbase + q,
                     ibase + fc[1] * is[2] + SumSeq([k \in 1..ns |-> pos[k] * is[k + 2]]) + 1>>]
      all == [q \in 1..Prod(fd) |-> At(q)]
      in == SelectSeq(all, LAMBDA x : x.ok)
  IN [j \in 1..Len(in) |-> in[j].pr]

-----------------------------------------------------------------------------
(* Pooling: e.m mode, e.a ksize, e.b stride, e.c padding, e.d dilation.     *)

PoolErrs(e, t) ==
  LET n == Len(t.dims)
  IN IF n < 3 \/ n > 5 THEN {DIMENSIONS_MISMATCH}
     ELSE IF e.m \notin {"max", "avg"} THEN {INVALID_ARGUMENT}
     ELSE IF \E k \in 1..(n - 2) : ~WinOk(t.dims[k + 2], e.a[k], e.b[k], e.c[k], e.d[k])
     THEN {INVALID_ARGUMENT} ELSE {}

PoolDims(e, t) ==
  <<t.dims[1], t.dims[2]>> \o
  [k \in 1..(Len(t.dims) - 2) |->
     WinOut(t.dims[k + 2], e.a[k], e.b[k], e.c[k], e.d[k])]

\* positions of the input in the window of output element i, 0 for padding
PoolWindow(e, t, i) ==
  LET od == PoolDims(e, t)
      co == Coords(i - 1, od, Strides(od))
      ns == Len(od) - 2
      is == Strides(t.dims)
      ks == SubSeq(e.a, 1, ns)
      kst == Strides(ks)
  IN [q \in 1..Prod(ks) |->
        LET kc == Coords(q - 1, ks, kst)
            pos == [k \in 1..ns |-> WinPos(t.dims[k + 2], co[k + 2], e.b[k], e.c[k], e.d[k], kc[k])]
        IN IF \A k \in 1..ns : pos[k] >= 0
           THEN co[1] * is[1] + co[2] * is[2] + SumSeq([k \in 1..ns |-> pos[k] * is[k + 2]]) + 1
           ELSE 0]

PoolOk(e, t, k, i, r) ==
  LET w == PoolWindow(e, t, i)
      dt == t.dt
      n == Len(w)
  IN CASE k = "s" ->
            LET v(q) == IF w[q] = 0 THEN 0 ELSE t.data[w[q]]
            IN IF e.m = "max"
               THEN (\A q \in 1..n : v(q) <= r) /\ (\E q \in 1..n : v(q) = r)
               ELSE LET s == SumSeq([q \in 1..n |-> v(q)])
                    IN IF IsFloat(dt) THEN r = (IF s % n = 0 THEN s \div n ELSE BigMark)
                       ELSE r = TDiv(s, n)
       [] k = "w" ->
            LET v(q) == IF w[q] = 0 THEN DZero ELSE Val(dt, t.data[w[q]])
                f == FloatOf(dt, r)
                rv == Val(dt, r)
            IN IF e.m = "max"
               THEN IF IsFloat(dt)
                    THEN LET g(q) == IF w[q] = 0 THEN [c |-> "fin", neg |-> FALSE, m |-> <<>>, q |-> 0]
                                     ELSE FloatOf(dt, t.data[w[q]])
                             posinf == \E q \in 1..n : g(q).c = "inf" /\ ~g(q).neg
                             fins == {q \in 1..n : g(q).c = "fin"}
                         IN IF posinf THEN f.c = "inf" /\ ~f.neg
                            ELSE IF fins = {} THEN f.c = "inf" /\ f.neg
                            ELSE /\ f.c = "fin"
                                 /\ \A q \in fins : DLe(FDyadic(g(q)), FDyadic(f))
                                 /\ \E q \in fins : DEq(FDyadic(g(q)), FDyadic(f))
                    ELSE (\A q \in 1..n : DLe(v(q), rv)) /\ (\E q \in 1..n : DEq(v(q), rv))
               ELSE LET s == DSum([q \in 1..n |-> v(q)])
                        mag == DSum([q \in 1..n |-> DAbs(v(q))])
                    IN IF IsFloat(dt)
                       THEN /\ f.c = "fin"
                            /\ DLe(DAbs(DSub(DMul(FDyadic(f), DofInt(n)), s)),
                                   DAdd(DMul(DScale(DofInt(n + 4), 1 - Prec(dt)), mag),
                                        DScale(DofInt(n + 1), QMin(dt))))
                       ELSE \* window sums beyond a double's precision are out of scope
                            NBits(DTrunc(mag).m) <= 53 =>
                              IntOf(dt, r) = ZTDiv(DTrunc(s), ZofInt(n))
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Batch normalization: operands input, scale, bias, mean, variance;        *)
(* e.n[1] axis, e.xd epsilon (double).                                      *)

\* epsilon converted to an integer type
EpsInt(e) == LET z == DTrunc(FDyadic(FloatOf(Double, e.xd)))
             IN IF z.neg THEN -NToInt(z.m) ELSE NToInt(z.m)
RECURSIVE ISqrt(_)
ISqrt(v) == IF v < 2 THEN v ELSE LET s == 2 * ISqrt(v \div 4)
                                 IN IF (s + 1) * (s + 1) <= v THEN s + 1 ELSE s

\* variance + epsilon as an exact dyadic (floating types)
BnVarD(e, t, v, k, c) ==
  DAdd(IF k = "w" THEN Val(t.dt, v.data[c]) ELSE DofInt(v.data[c]),
       FDyadic(FloatOf(Double, e.xd)))

BnErrs(e, k, t, sc, bi, me, va) ==
  LET n == Len(t.dims)
      ax == e.n[1]
      axOk == n \in 2..5 /\ (ax = 1 \/ ax = n - 1)
      nc == IF axOk THEN t.dims[ax + 1] ELSE -1
      types == sc.dt # t.dt \/ bi.dt # t.dt \/ me.dt # t.dt \/ va.dt # t.dt
      Shape(p) == p.dims # <<nc>>
      shapes == axOk /\ (Shape(sc) \/ Shape(bi) \/ Shape(me) \/ Shape(va))
      eps == FloatOf(Double, e.xd)
      epsNeg == eps.neg /\ eps.m # <<>>
      basic == (IF n \notin 2..5 THEN {DIMENSIONS_MISMATCH}
                ELSE IF ~axOk THEN {INVALID_ARGUMENT} ELSE {})
               \cup (IF types THEN {TYPE_MISMATCH} ELSE {})
               \cup (IF shapes THEN {DIMENSIONS_MISMATCH} ELSE {})
               \cup (IF epsNeg THEN {INVALID_ARGUMENT} ELSE {})
      \* only looked at when everything else is in order
      math == IF k = "h" THEN FALSE
              ELSE IF IsFloat(t.dt)
              THEN \E c \in 1..nc : DSign(BnVarD(e, t, va, k, c)) < 0
              ELSE \E c \in 1..nc : Small(t.dt, va.data[c] + EpsInt(e)) <= 0
  IN IF basic # {} THEN basic ELSE IF math THEN {MATH_ERROR} ELSE {}

\* channel (position from 1) of element i
BnChannel(e, t, i) ==
  LET str == Strides(t.dims) IN (((i - 1) \div str[e.n[1] + 1]) % t.dims[e.n[1] + 1]) + 1

\* square root of a dyadic to about 66 bits: sqrt(v * 2^2h) / 2^h
DSqrt(v) ==
  IF DSign(v) <= 0 THEN DZero
  ELSE LET h == 66 - (DMag(v) \div 2)
       IN D(Z(FALSE, NSqrt(DFix(v, 2 * h).m)), -h)
\* per channel, for the floating types
BnRoots(e, t, va, k) ==
  IF k # "w" \/ ~IsFloat(t.dt) THEN <<>>
  ELSE TLCEval([c \in 1..Len(va.data) |-> TLCEval(DSqrt(BnVarD(e, t, va, k, c)))])

\* r is the image of element x of channel c
BnOk(e, t, sc, bi, me, va, roots, k, c, x, r) ==
  LET dt == t.dt
  IN IF ~IsFloat(dt)
     THEN IF k # "s" THEN TRUE
          ELSE LET W(y) == Small(dt, y)
                   den == W(ISqrt(W(va.data[c] + EpsInt(e))))
                   q == W(TDiv(W(x - me.data[c]), den))
               IN r = W(W(sc.data[c] * q) + bi.data[c])
     ELSE IF k # "w" THEN TRUE
     ELSE LET v == BnVarD(e, t, va, k, c)
              V(p, j) == Val(dt, p.data[j])
              num == DSub(Val(dt, x), V(me, c))
              s == V(sc, c)
              b == V(bi, c)
              f == FloatOf(dt, r)
              rt == roots[c]
              \* (y - b) * sqrt(v) = (x - mean) * scale; the parts that are
              \* rounded: x, mean, difference, root, quotient, product, sum
              lhs == DMul(DSub(FDyadic(f), b), rt)
              rhs == DMul(num, s)
              mag == DAdd(DMul(DAdd(DAbs(Val(dt, x)), DAbs(V(me, c))), DAbs(s)),
                          DMul(DAbs(b), rt))
              tol == DAdd(DMul(DPow2(6 - Prec(dt)), mag), DMul(Tiny(dt), DAdd(rt, DAbs(s))))
          IN IF DIsZero(v) THEN TRUE      \* division by zero: not a number to compare
             ELSE f.c = "fin" /\ DLe(DAbs(DSub(lhs, rhs)), tol)

-----------------------------------------------------------------------------
(* Element-wise functions.                                                  *)

SqrtNeg(k, dt, x) ==
  CASE k = "s" -> x < 0
    [] k = "w" -> IF IsFloat(dt)
                  THEN LET f == FloatOf(dt, x) IN f.c # "nan" /\ f.neg /\ ~FIsZero(f)
                  ELSE IntOf(dt, x).neg
    [] OTHER -> FALSE

UnaryOk(op, dt, k, x, r) ==
  CASE k = "h" -> TRUE
    [] op = "relu" ->
         IF k = "s" THEN r = (IF x > 0 THEN x ELSE 0)
         ELSE IF IsFloat(dt)
         THEN LET f == FloatOf(dt, x)
                  g == FloatOf(dt, r)
              IN IF f.c = "nan" THEN TRUE
                 ELSE IF f.neg \/ FIsZero(f) THEN FIsZero(g) ELSE r = x
         ELSE r = IF IntOf(dt, x).neg THEN [j \in 1..Len(x) |-> 0] ELSE x
    [] op = "sqrt" ->
         IF k = "s"
         THEN IF IsFloat(dt) THEN r = (IF ISqrt(x) * ISqrt(x) = x THEN ISqrt(x) ELSE BigMark)
              ELSE r = ISqrt(x)
         ELSE IF IsFloat(dt)
         THEN LET f == FloatOf(dt, x)
                  g == FloatOf(dt, r)
              IN CASE f.c = "nan" -> TRUE
                   [] f.c = "inf" -> g.c = "inf" /\ ~g.neg
                   [] OTHER -> SqrtRoundsTo(dt, FDyadic(f), g)
         ELSE LET z == IntOf(dt, x)
              IN NBits(z.m) <= 52 => IntOf(dt, r) = Z(FALSE, NSqrt(z.m))
    [] k # "w" -> TRUE
    [] op = "sigmoid" -> SigmoidOk(dt, FloatOf(dt, x), FloatOf(dt, r))
    [] op = "tanh" -> TanhOk(dt, FloatOf(dt, x), FloatOf(dt, r))

\* softmax: the groups of positions normalised together
SoftmaxGroups(t, ax) ==
  IF ax = -1 THEN << [i \in 1..Size(t) |-> i] >>
  ELSE LET n == t.dims[ax + 1]
           st == Strides(t.dims)[ax + 1]
       IN [g \in 1..(IF n = 0 THEN 0 ELSE Size(t) \div n) |->
             LET hi == (g - 1) \div st
                 lo == (g - 1) % st
             IN [j \in 1..n |-> hi * st * n + (j - 1) * st + lo + 1]]

SoftmaxDataOk(e, t, k, data) ==
  IF k = "h" \/ (k = "s" /\ IsFloat(t.dt)) THEN TRUE
  ELSE LET gs == SoftmaxGroups(t, e.n[1])
           \* arguments and results of a group; groups alike are judged once
           group(g) == <<[j \in 1..Len(gs[g]) |-> t.data[gs[g][j]]], [j \in 1..Len(gs[g]) |-> data[gs[g][j]]]>>
       IN \A p \in {group(g) : g \in 1..Len(gs)} :
            LET n == Len(p[1])
            IN IF IsFloat(t.dt)
               THEN SoftmaxOk(t.dt, TLCEval([j \in 1..n |-> Val(t.dt, p[1][j])]),
                              TLCEval([j \in 1..n |-> FloatOf(t.dt, p[2][j])]))
               ELSE SoftmaxIntOk(TLCEval([j \in 1..n |-> IF k = "s" THEN DofInt(p[1][j]) ELSE Val(t.dt, p[1][j])]),
                                 [j \in 1..n |->
                                    IF k = "s" THEN p[2][j]
                                    ELSE LET z == IntOf(t.dt, p[2][j])
                                         IN IF ~NFitsInt(z.m) \/ z.neg THEN 2 ELSE NToInt(z.m)])

\* rates of dropout
RateOk(e) == LET f == FloatOf(Double, e.xd)
             IN f.c = "fin" /\ (~f.neg \/ FIsZero(f)) /\ DLe(FDyadic(f), DofInt(1))
IsZeroEl(k, x) == CASE k = "s" -> x = 0
                    [] k = "w" -> \A j \in 1..Len(x) : x[j] = 0
                    [] OTHER -> x \in {"00", "0000", "00000000", "0000000000000000"}
DropoutOk(e, t, k, data) ==
  LET rate == FDyadic(FloatOf(Double, e.xd))
  IN \A i \in 1..Len(data) :
       /\ data[i] = t.data[i] \/ IsZeroEl(k, data[i])
       /\ DIsZero(rate) => data[i] = t.data[i]
       /\ DEq(rate, DofInt(1)) => IsZeroEl(k, data[i])

\* cnt of n independent chances p (a dyadic): within 6.5 standard deviations
\* (where there are enough chances for that to say something)
FairCount(cnt, n, p) ==
  LET mean == DMul(DofInt(n), p)
      var == DMul(mean, DSub(DofInt(1), p))
      off == DSub(DAbs(DSub(DofInt(cnt), mean)), DofInt(1))
  IN DLe(var, DofInt(50)) \/ DLe(off, DofInt(0)) \/ DLe(DMul(DofInt(4), DMul(off, off)), DMul(DofInt(169), var))

\* e.n[1] dropouts: e.ret counts, per element, the results in which it is zero;
\* the last entry counts elements neither kept nor zero
DropStatOk(e, t) ==
  LET n == Size(t)
      p == FDyadic(FloatOf(Double, e.xd))
  IN /\ e.st = SUCCESS /\ Len(e.ret) = n + 1 /\ e.ret[n + 1] = 0
     /\ \A i \in 1..n : FairCount(e.ret[i], e.n[1], p)

\* one dropout of a large tensor without zeros: all elements, those of a
\* residue class, those of a block
DropoutFair(e, k, t, data) ==
  LET n == Len(data)
      p == FDyadic(FloatOf(Double, e.xd))
      z == TLCEval([i \in 1..n |-> IF IsZeroEl(k, data[i]) THEN 1 ELSE 0])
      Count(from, step, to) == FoldLeftDomain(LAMBDA a, j : a + z[from + (j - 1) * step], 0,
                                              [j \in 1..((to - from) \div step + 1) |-> 0])
      blk == n \div 10
  IN (n >= 1000 /\ \A i \in 1..n : ~IsZeroEl(k, t.data[i])) =>
       /\ FairCount(Count(1, 1, n), n, p)
       /\ \A m \in {2, 3, 4, 5, 7, 8, 16} : \A r \in 1..m :
            FairCount(Count(r, m, n), (n - r) \div m + 1, p)
       /\ \A b \in 0..9 : FairCount(Count(b * blk + 1, 1, (b + 1) * blk), blk, p)

-----------------------------------------------------------------------------
(* A call as a whole.                                                       *)

In(e, S) == [j \in 1..Len(e.t) |-> S[e.t[j]]]

BinErrs(e, k, t, u) ==
  IF t.dv # CPU \/ u.dv # CPU THEN {NOT_SUPPORTED}
  ELSE IF t.dt # u.dt THEN {TYPE_MISMATCH}
  ELSE IF t.dims # u.dims THEN {INVALID_ARGUMENT}
  ELSE IF e.op = "div" /\ \E i \in 1..Len(t.data) : DivUndefined(k, t.dt, t.data[i], u.data[i])
  THEN {MATH_ERROR} ELSE {}

\* Prod(dims) = n, also where the product passes TLC's integers
HoldsElems(dims, n) ==
  IF n > 0 /\ \A i \in 1..Len(dims) : dims[i] > 0
  THEN NCmp(FoldLeft(LAMBDA a, d : NMul(a, NofInt(d)), NOne, dims), NofInt(n)) = 0
  ELSE IF \E i \in 1..Len(dims) : dims[i] = 0 THEN n = 0
  ELSE IF \A i \in 1..Len(dims) : dims[i] > 0 THEN FALSE
  ELSE Prod(dims) = n

Errs(e, k, S) ==
  LET in == In(e, S)
      t == in[1]
  IN CASE e.op = "create" ->
            IF e.hasx = 1 /\ ~HoldsElems(e.dims, e.len \div DSize(e.dt)) THEN {INVALID_ARGUMENT} ELSE {}
       [] e.op = "full" -> {}
       [] e.op = "slice" ->
            IF SliceOk(t.dims, e.a, e.b, e.c) THEN {} ELSE {INVALID_ARGUMENT}
       [] e.op = "duplicate" -> IF AllPos(t.dims) THEN {} ELSE {INVALID_ARGUMENT}
       [] e.op = "reshape" ->
            IF HoldsElems(e.dims, Size(t)) THEN {} ELSE {DIMENSIONS_MISMATCH}
       [] e.op = "squeeze" ->
            IF SqueezeOk(t.dims, e.a, e.n[1]) THEN {} ELSE {INVALID_ARGUMENT}
       [] e.op = "cast" -> IF e.dt \in DTypes THEN {} ELSE {NOT_SUPPORTED}
       [] e.op \in BinaryOps -> BinErrs(e, k, t, in[2])
       [] e.op = "matmul" -> MatmulErrs(t, in[2])
       [] e.op = "dot" -> DotErrs(t, in[2])
       [] e.op \in ConvOps -> ConvErrs(e, t, in[2])
       [] e.op = "pooling" -> PoolErrs(e, t)
       [] e.op = "batch_norm" -> BnErrs(e, k, t, in[2], in[3], in[4], in[5])
       [] e.op = "relu" -> {}
       [] e.op = "sqrt" -> IF \E i \in 1..Len(t.data) : SqrtNeg(k, t.dt, t.data[i])
                           THEN {MATH_ERROR} ELSE {}
       [] e.op \in {"sigmoid", "tanh"} -> IF IsFloat(t.dt) THEN {} ELSE {NOT_SUPPORTED}
       [] e.op = "softmax" ->
            IF e.n[1] < -1 \/ e.n[1] > Len(t.dims) - 1 THEN {NOT_SUPPORTED} ELSE {}
       [] e.op = "dropout" -> IF RateOk(e) THEN {} ELSE {INVALID_ARGUMENT}

\* errors that depend on elements which kind "h" does not interpret
MayErrs(e, k, S) ==
  IF k = "h" /\ e.op \in {"div", "sqrt", "batch_norm"} THEN {MATH_ERROR} ELSE {}

\* a cast to the tensor's own type succeeds and makes no tensor
MakesNothing(e, S) == e.op = "cast" /\ e.dt = In(e, S)[1].dt

OutMeta(e, S) ==
  LET in == In(e, S)
      t == in[1]
      M(dims) == [dt |-> t.dt, dv |-> t.dv, di |-> t.di, dims |-> dims]
  IN CASE e.op \in {"create", "full"} -> [dt |-> e.dt, dv |-> e.dv, di |-> e.di, dims |-> e.dims]
       [] e.op = "slice" -> M(SliceDims(t.dims, e.b, e.c))
       [] e.op = "reshape" -> M(e.dims)
       [] e.op = "squeeze" -> M(SqueezeDims(t.dims, e.a, e.n[1]))
       [] e.op = "cast" -> [M(t.dims) EXCEPT !.dt = e.dt]
       [] e.op = "matmul" -> M(MatmulDims(t, in[2]))
       [] e.op = "dot" -> M(DotDims(t, in[2]))
       [] e.op \in ConvOps -> M(ConvDims(e, t, in[2]))
       [] e.op = "pooling" -> M(PoolDims(e, t))
       [] OTHER -> M(t.dims)

DataOk(e, k, S, data) ==
  LET in == In(e, S)
      t == in[1]
      n == Len(data)
  IN CASE e.op = "create" -> e.hasx = 1 => data = SubSeq(e.x, 1, n)
       [] e.op = "full" -> n = 0 \/ (FromDouble(k, e.dt, e.xd, data[1]) /\ \A i \in 1..n : data[i] = data[1])
       [] e.op = "slice" ->
            LET map == SliceMap(t.dims, e.a, e.b, e.c)
            IN data = [i \in 1..n |-> t.data[map[i]]]
       [] e.op \in {"duplicate", "reshape", "squeeze"} -> data = t.data
       [] e.op = "cast" ->
            IF k = "s" THEN data = [i \in 1..n |-> SmallCast(t.dt, e.dt, t.data[i])]
            ELSE k = "w" => \A p \in {<<t.data[i], data[i]>> : i \in 1..n} : CastOk(t.dt, e.dt, p[1], p[2])
       [] e.op \in BinaryOps ->
            IF k = "s" THEN data = [i \in 1..n |-> SmallBin(e.op, t.dt, t.data[i], in[2].data[i])]
            ELSE k = "w" => \A p \in {<<t.data[i], in[2].data[i], data[i]>> : i \in 1..n} :
                              WideBinOk(e.op, t.dt, p[1], p[2], p[3])
       [] e.op = "matmul" ->
            LET P(i) == MatmulPairs(t, in[2], i)
            IN SumsOk(k, t.dt, P, t.data, in[2].data, data)
       [] e.op = "dot" ->
            LET P(i) == DotPairs(t, in[2], i)
            IN SumsOk(k, t.dt, P, t.data, in[2].data, data)
       [] e.op \in ConvOps ->
            LET P(i) == ConvPairs(e, t, in[2], i)
            IN SumsOk(k, t.dt, P, in[2].data, t.data, data)
       [] e.op = "pooling" -> \A i \in 1..n : PoolOk(e, t, k, i, data[i])
       [] e.op = "batch_norm" ->
            LET roots == BnRoots(e, t, in[5], k)
            IN \A p \in {<<BnChannel(e, t, i), t.data[i], data[i]>> : i \in 1..n} :
                 BnOk(e, t, in[2], in[3], in[4], in[5], roots, k, p[1], p[2], p[3])
       [] e.op \in UnaryOps ->
            IF k = "w" THEN \A p \in {<<t.data[i], data[i]>> : i \in 1..n} : UnaryOk(e.op, t.dt, k, p[1], p[2])
            ELSE \A i \in 1..n : UnaryOk(e.op, t.dt, k, t.data[i], data[i])
       [] e.op = "softmax" -> SoftmaxDataOk(e, t, k, data)
       [] e.op = "dropout" -> DropoutOk(e, t, k, data) /\ DropoutFair(e, k, t, data)

-----------------------------------------------------------------------------
(* Calls that return numbers instead of a tensor: e.ret.                    *)

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* strides twice, then per index: index, linear index, offset, coordinates twice
IndexRet(e, t) ==
  LET d == t.dims
      nd == Len(d)
      str == Strides(d)
      idx == IF e.a = <<>> THEN [i \in 1..Prod(d) |-> i - 1] ELSE e.a
  IN /\ Len(e.ret) = 2 * nd + Len(idx) * (3 + 2 * nd)
     /\ SubSeq(e.ret, 1, 2 * nd) = str \o str
     /\ \A j \in 1..Len(idx) :
          LET co == Coords(idx[j], d, str)
              o == 2 * nd + (j - 1) * (3 + 2 * nd)
          IN /\ e.ret[o + 1] = idx[j]
             /\ e.ret[o + 2] = idx[j] /\ e.ret[o + 3] = idx[j]
             /\ LinIdx(co, str) = idx[j]
             /\ SubSeq(e.ret, o + 4, o + 3 + 2 * nd) = co \o co

InspectRet(e, t) ==
  LET d == t.dims
      n == Prod(d)
  IN e.ret = <<Len(d), n, t.dt, DSize(t.dt), t.dv, t.di, 0, Len(d), 1, 0,
               n, t.dt, DSize(t.dt), t.dv, t.di, 1>> \o d \o d \o Strides(d)

ResolveRet(e, t) ==
  e.ret = <<t.dt, DSize(t.dt), t.dv, t.di, Len(t.dims), Size(t) * DSize(t.dt), 1, 1, 0>> \o t.dims

SizesRet(e) ==
  LET d == e.dims
      n == Len(d)
  IN e.ret = <<Prod(d)>> \o [k \in 1..(n + 1) |-> SizeFrom(k - 1, d)]
             \o [k \in 1..(n + 1) |-> SizeTo(k - 1, d)]
             \o [q \in 1..((n + 1) * (n + 1)) |->
                   SizeBetween((q - 1) \div (n + 1), (q - 1) % (n + 1), d)]

BcastRet(e) ==
  IF Broadcastable(e.a, e.b)
  THEN e.st = SUCCESS /\ e.ret = BroadcastDims(e.a, e.b)
  ELSE e.st = DIMENSIONS_MISMATCH

\* the same two with extents beyond TLC's integers: sequences of Big naturals
NProd(s) == FoldLeft(LAMBDA a, b : NMul(a, b), NOne, s)
WSizesRet(e) ==
  LET d == e.dims
      n == Len(d)
      from == [k \in 1..(n + 1) |-> NProd(SubSeq(d, k, n))]
      to == [k \in 1..(n + 1) |-> NProd(SubSeq(d, 1, k - 1))]
      between(k, l) == IF k < l THEN NProd(SubSeq(d, k + 2, l)) ELSE NProd(SubSeq(d, l + 2, k))
  IN e.ret = <<NProd(d)>> \o from \o to
             \o [q \in 1..((n + 1) * (n + 1)) |-> between((q - 1) \div (n + 1), (q - 1) % (n + 1))]

\* coordinates co name position idx exactly when each is below its extent and
\* their sum weighted with the strides is idx
WNames(co, d, str, idx) ==
  /\ \A k \in 1..Len(d) : NCmp(co[k], d[k]) = -1
  /\ FoldLeftDomain(LAMBDA acc, k : NAdd(acc, NMul(co[k], str[k])), NZero, d) = idx
WIndexRet(e) ==
  LET d == e.dims
      nd == Len(d)
      str == TLCEval([k \in 1..nd |-> NProd(SubSeq(d, k + 1, nd))])
  IN /\ e.st = SUCCESS
     /\ Len(e.ret) = 2 * nd + Len(e.a) * (3 + 2 * nd) + 1
     /\ e.ret[Len(e.ret)] = NProd(d)
     /\ SubSeq(e.ret, 1, 2 * nd) = str \o str
     /\ \A j \in 1..Len(e.a) :
          LET o == 2 * nd + (j - 1) * (3 + 2 * nd)
          IN /\ e.ret[o + 1] = e.a[j] /\ e.ret[o + 2] = e.a[j] /\ e.ret[o + 3] = e.a[j]
             /\ WNames(SubSeq(e.ret, o + 4, o + 3 + nd), d, str, e.a[j])
             /\ SubSeq(e.ret, o + 4 + nd, o + 3 + 2 * nd) = SubSeq(e.ret, o + 4, o + 3 + nd)

NMaxOf(a, b) == IF NCmp(a, b) = 1 THEN a ELSE b
WBcastRet(e) ==
  LET n == MaxI(Len(e.a), Len(e.b))
      pad(d, k) == IF k <= n - Len(d) THEN NOne ELSE d[k - (n - Len(d))]
  IN IF \A k \in 1..n : LET x == pad(e.a, k)
                            y == pad(e.b, k)
                        IN x = y \/ x = NOne \/ y = NOne
     THEN e.st = SUCCESS /\ e.ret = [k \in 1..n |-> NMaxOf(pad(e.a, k), pad(e.b, k))]
     ELSE e.st = DIMENSIONS_MISMATCH

\* e.n = <<index, 0 get 1 getarray 2 set 3 setarray>>; e.x buffer, then value
TypedRet(e) ==
  LET m == Len(e.x) - 1
      i == e.n[1] + 1
  IN IF e.n[2] \in {0, 1}
     THEN e.val = e.x[i] /\ e.res = SubSeq(e.x, 1, m)
     ELSE e.val = e.x[m + 1] /\ e.res = [SubSeq(e.x, 1, m) EXCEPT ![i] = e.x[m + 1]]

ValueOk(e, k, S) ==
  LET t == In(e, S)[1]
  IN CASE e.op = "destroynull" -> e.st = SUCCESS /\ e.ret = <<1>>
       [] e.op = "resolve" -> e.st = SUCCESS /\ ResolveRet(e, t)
       [] e.op = "inspect" -> InspectRet(e, t)
       [] e.op = "index" -> IndexRet(e, t)
       [] e.op = "bcast" -> BcastRet(e)
       [] e.op = "sizes" -> SizesRet(e)
       [] e.op = "wbcast" -> WBcastRet(e)
       [] e.op = "wsizes" -> WSizesRet(e)
       [] e.op = "windex" -> WIndexRet(e)
       [] e.op = "typed" -> TypedRet(e)
       [] e.op = "castto" -> FromDouble(k, e.dt, e.xd, e.val)
       [] e.op = "dropstat" -> DropStatOk(e, t)
=============================================================================
