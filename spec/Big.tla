-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Unbounded naturals, signed integers and dyadic rationals.  TLC's own    *)
(* integers have 32 bits, so wide values are little-endian sequences of    *)
(* limbs in base 4096 without trailing (most significant) zero limbs.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

B == 4096
BBits == 12

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

\* Carry propagation: c[i] are column sums (0 <= c[i] < 2^30).
RECURSIVE Carry(_, _, _, _)
Carry(c, i, carry, acc) ==
  IF i > Len(c)
  THEN IF carry = 0 THEN acc ELSE Carry(c, i, carry \div B, Append(acc, carry % B))
  ELSE LET v == c[i] + carry IN Carry(c, i + 1, v \div B, Append(acc, v % B))

RECURSIVE NofInt(_)
NofInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NofInt(n \div B)

NZero == <<>>
NOne == <<1>>

NAdd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE Carry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)], 1, 0, <<>>)

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1
                   ELSE NCmpAt(a, b, i - 1)
\* -1, 0, 1 as a <, =, > b
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1)
              ELSE NCmpAt(a, b, Len(a))

RECURSIVE Borrow(_, _, _, _, _)
Borrow(a, b, i, bor, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET v == a[i] - Limb(b, i) - bor
       IN IF v < 0 THEN Borrow(a, b, i + 1, 1, Append(acc, v + B))
          ELSE Borrow(a, b, i + 1, 0, Append(acc, v))
\* a - b, for a >= b
NSub(a, b) == IF b = <<>> THEN a ELSE Trim(Borrow(a, b, 1, 0, <<>>))

RECURSIVE Column(_, _, _, _, _)
Column(a, b, k, i, s) ==     \* sum of a[i]*b[k-i], i up to Len(a)
  IF i > Len(a) \/ i >= k THEN s
  ELSE Column(a, b, k, i + 1, s + a[i] * b[k - i])

NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                Column(a, b, k + 1, Max2(1, k + 1 - Len(b)), 0)], 1, 0, <<>>)

NMulInt(a, n) == IF n = 0 THEN <<>> ELSE NMul(a, NofInt(n))

\* remainder and quotient by a small positive integer (< 2^19)
RECURSIVE DivSmallAt(_, _, _, _, _)
DivSmallAt(a, n, i, rem, acc) ==
  IF i = 0 THEN [q |-> Trim(acc), r |-> rem]
  ELSE LET v == rem * B + a[i]
       IN DivSmallAt(a, n, i - 1, v % n, <<v \div n>> \o acc)
NDivSmall(a, n) == DivSmallAt(a, n, Len(a), 0, <<>>)

Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
P2(k) == Pow2Tab[k + 1]

Zeros(n) == [i \in 1..n |-> 0]

\* a * 2^k
NShl(a, k) ==
  IF a = <<>> \/ k = 0 THEN a
  ELSE LET low == Zeros(k \div BBits)
           m == P2(k % BBits)
       IN low \o (IF m = 1 THEN a ELSE Carry([i \in 1..Len(a) |-> a[i] * m], 1, 0, <<>>))

\* floor(a / 2^k)
NShr(a, k) ==
  LET d == k \div BBits
      m == P2(k % BBits)
  IN IF d >= Len(a) THEN <<>>
     ELSE LET h == SubSeq(a, d + 1, Len(a))
          IN IF m = 1 THEN h
             ELSE Trim([i \in 1..Len(h) |-> h[i] \div m + (Limb(h, i + 1) % m) * (B \div m)])

\* a mod 2^k
NLow(a, k) ==
  LET d == k \div BBits
      m == P2(k % BBits)
  IN IF Len(a) <= d THEN a
     ELSE Trim(SubSeq(a, 1, d) \o <<a[d + 1] % m>>)

BitsOf(n) == IF n = 0 THEN 0
             ELSE CHOOSE k \in 1..12 : P2(k - 1) <= n /\ n < P2(k)
NBits(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * BBits + BitsOf(a[Len(a)])

NIsZero(a) == a = <<>>
NOdd(a) == a # <<>> /\ a[1] % 2 = 1

NPow2(k) == Append(Zeros(k \div BBits), P2(k % BBits))

\* the number as a TLC integer, which it must fit
RECURSIVE NToInt(_)
NToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + B * NToInt(Tail(a))
NFitsInt(a) == NBits(a) <= 30

\* floor of the square root
RECURSIVE NSqrt(_)
NSqrt(a) ==
  IF a = <<>> THEN <<>>
  ELSE IF NBits(a) <= 2 THEN <<1>>
  ELSE LET s == NShl(NSqrt(NShr(a, 2)), 1)
           t == NAdd(s, NOne)
       IN IF NCmp(NMul(t, t), a) <= 0 THEN t ELSE s

\* floor of a / b, b > 0, one bit at a time from bit k down
RECURSIVE DivBits(_, _, _, _)
DivBits(a, b, k, q) ==
  IF k < 0 THEN [q |-> q, r |-> a]
  ELSE LET bk == NShl(b, k)
       IN IF NCmp(bk, a) <= 0 THEN DivBits(NSub(a, bk), b, k - 1, NAdd(q, NPow2(k)))
          ELSE DivBits(a, b, k - 1, q)
NDiv(a, b) == IF NBits(a) < NBits(b) THEN [q |-> <<>>, r |-> a]
              ELSE DivBits(a, b, NBits(a) - NBits(b), <<>>)

-----------------------------------------------------------------------------
(* Signed integers [neg, m]; zero is never negative.                        *)

Z(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
ZofInt(n) == IF n < 0 THEN Z(TRUE, NofInt(-n)) ELSE Z(FALSE, NofInt(n))
ZZero == Z(FALSE, <<>>)
ZNeg(a) == Z(~a.neg, a.m)
ZAdd(a, b) ==
  IF a.neg = b.neg THEN Z(a.neg, NAdd(a.m, b.m))
  ELSE CASE NCmp(a.m, b.m) = 0 -> ZZero
         [] NCmp(a.m, b.m) > 0 -> Z(a.neg, NSub(a.m, b.m))
         [] OTHER -> Z(b.neg, NSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.neg # b.neg, NMul(a.m, b.m))
ZCmp(a, b) ==
  IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
  ELSE IF a.neg THEN NCmp(b.m, a.m) ELSE NCmp(a.m, b.m)
ZAbs(a) == Z(FALSE, a.m)
\* a modulo 2^k, as a natural
ZMod2(a, k) ==
  LET l == NLow(a.m, k)
  IN IF ~a.neg \/ l = <<>> THEN l ELSE NSub(NPow2(k), l)

-----------------------------------------------------------------------------
(* Dyadic rationals [z, e]: z * 2^e.                                        *)

D(z, e) == [z |-> z, e |-> e]
DZero == D(ZZero, 0)
DofInt(n) == D(ZofInt(n), 0)
DNeg(a) == D(ZNeg(a.z), a.e)
DAbs(a) == D(ZAbs(a.z), a.e)
DScale(a, k) == D(a.z, a.e + k)
DIsZero(a) == a.z.m = <<>>
ZShl(z, k) == Z(z.neg, NShl(z.m, k))
DAdd(a, b) ==
  IF DIsZero(a) THEN b ELSE IF DIsZero(b) THEN a
  ELSE IF a.e = b.e THEN D(ZAdd(a.z, b.z), a.e)
  ELSE IF a.e > b.e THEN D(ZAdd(ZShl(a.z, a.e - b.e), b.z), b.e)
  ELSE D(ZAdd(a.z, ZShl(b.z, b.e - a.e)), a.e)
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == D(ZMul(a.z, b.z), a.e + b.e)
DSign(a) == IF DIsZero(a) THEN 0 ELSE IF a.z.neg THEN -1 ELSE 1
\* the position of the leading bit: 2^(DMag-1) <= |a| < 2^DMag
DMag(a) == NBits(a.z.m) + a.e
DCmp(a, b) ==
  IF DSign(a) # DSign(b) THEN (IF DSign(a) < DSign(b) THEN -1 ELSE 1)
  ELSE IF DIsZero(a) THEN 0
  ELSE IF DMag(a) # DMag(b)
       THEN (IF (DMag(a) > DMag(b)) = ~a.z.neg THEN 1 ELSE -1)
  ELSE IF a.e >= b.e THEN ZCmp(ZShl(a.z, a.e - b.e), b.z)
  ELSE ZCmp(a.z, ZShl(b.z, b.e - a.e))
DLe(a, b) == DCmp(a, b) <= 0
DLt(a, b) == DCmp(a, b) < 0
DEq(a, b) == DCmp(a, b) = 0
DMax(a, b) == IF DCmp(a, b) >= 0 THEN a ELSE b
DPow2(k) == D(Z(FALSE, NOne), k)
\* truncation toward zero, as a signed integer
DTrunc(a) == IF a.e >= 0 THEN ZShl(a.z, a.e) ELSE Z(a.z.neg, NShr(a.z.m, -a.e))
\* fixed point: floor of |a| * 2^f, with a's sign
DFix(a, f) == DTrunc(DScale(a, f))

DSum(s) == FoldLeft(DAdd, DZero, s)
=============================================================================
