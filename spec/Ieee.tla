-------------------------------- MODULE Ieee -------------------------------
(***************************************************************************)
(* The ten data types: sizes, ranges, two's complement and IEEE-754        *)
(* encodings.  An element of a tensor logged "wide" is its bit pattern as  *)
(* base-4096 limbs (1, 2, 3 or 6 of them for 1, 2, 4 or 8 bytes).          *)
(***************************************************************************)
EXTENDS Big

Int8 == 0   Uint8 == 1   Int16 == 2   Uint16 == 3   Int32 == 4
Uint32 == 5 Int64 == 6   Uint64 == 7  Float == 8    Double == 9
DTypes == 0..9
FloatTypes == {Float, Double}
IntTypes == 0..7
SignedInts == {Int8, Int16, Int32, Int64}
UnsignedInts == {Uint8, Uint16, Uint32, Uint64}
SizeTab == <<1, 1, 2, 2, 4, 4, 8, 8, 4, 8>>
DSize(dt) == SizeTab[dt + 1]
DBits(dt) == 8 * DSize(dt)
IsFloat(dt) == dt \in FloatTypes
IsSigned(dt) == dt \in SignedInts

\* precision and exponent range
Prec(dt) == IF dt = Float THEN 24 ELSE 53
EMin(dt) == IF dt = Float THEN -126 ELSE -1022
EMax(dt) == IF dt = Float THEN 127 ELSE 1023
QMin(dt) == EMin(dt) - Prec(dt) + 1      \* exponent of the smallest quantum
QMax(dt) == EMax(dt) - Prec(dt) + 1

-----------------------------------------------------------------------------
(* Native (32-bit TLC) wrap-around of the narrow integer types.             *)
Wrap(dt, v) ==
  CASE dt = Int8   -> ((v + 128) % 256) - 128
    [] dt = Uint8  -> v % 256
    [] dt = Int16  -> ((v + 32768) % 65536) - 32768
    [] dt = Uint16 -> v % 65536
    [] OTHER       -> v

InRange(dt, v) ==
  CASE dt = Int8   -> -128 <= v /\ v <= 127
    [] dt = Uint8  -> 0 <= v /\ v <= 255
    [] dt = Int16  -> -32768 <= v /\ v <= 32767
    [] dt = Uint16 -> 0 <= v /\ v <= 65535
    [] dt \in {Uint32, Uint64} -> 0 <= v
    [] OTHER -> TRUE

\* C division of integers: truncated toward zero
TDiv(a, b) ==
  LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
  IN IF (a < 0) # (b < 0) THEN -q ELSE q

-----------------------------------------------------------------------------
(* Decoding of wide integers.                                               *)
IntOf(dt, limbs) ==
  LET u == Trim(limbs)
      n == DBits(dt)
  IN IF IsSigned(dt) /\ NBits(u) = n THEN Z(TRUE, NSub(NPow2(n), u)) ELSE Z(FALSE, u)

\* the integer z reduced to the type
ZWrap(dt, z) ==
  LET n == DBits(dt)
      u == ZMod2(z, n)
  IN IF IsSigned(dt) /\ NBits(u) = n THEN Z(TRUE, NSub(NPow2(n), u)) ELSE Z(FALSE, u)
ZInRange(dt, z) ==
  IF IsSigned(dt)
  THEN IF z.neg THEN NCmp(z.m, NPow2(DBits(dt) - 1)) <= 0 ELSE NBits(z.m) <= DBits(dt) - 1
  ELSE ~z.neg /\ NBits(z.m) <= DBits(dt)

-----------------------------------------------------------------------------
(* Decoding of floating point: [c, neg, m, q], value (-1)^neg * m * 2^q,    *)
(* c one of "nan", "inf", "fin".                                            *)
FloatOf(dt, l) ==
  LET neg == IF dt = Float THEN l[3] \div 128 = 1 ELSE l[6] \div 8 = 1
      ex == IF dt = Float THEN (l[3] % 128) * 2 + l[2] \div 2048
            ELSE (l[6] % 8) * 256 + l[5] \div 16
      fr == IF dt = Float THEN Trim(<<l[1], l[2] % 2048>>)
            ELSE Trim(<<l[1], l[2], l[3], l[4], l[5] % 16>>)
      emaxf == IF dt = Float THEN 255 ELSE 2047
      p == Prec(dt)
  IN IF ex = emaxf THEN [c |-> IF fr = <<>> THEN "inf" ELSE "nan", neg |-> neg, m |-> <<>>, q |-> 0]
     ELSE IF ex = 0 THEN [c |-> "fin", neg |-> neg, m |-> fr, q |-> QMin(dt)]
     ELSE [c |-> "fin", neg |-> neg, m |-> NAdd(NPow2(p - 1), fr), q |-> QMin(dt) + ex - 1]

FDyadic(f) == D(Z(f.neg, f.m), f.q)

(***************************************************************************)
(* Correct rounding (nearest, ties to even), as a predicate on the result: *)
(* r = [c, neg, m, q] is the rounding of a non-zero real x whose magnitude *)
(* is compared with a dyadic d by Below(d) (|x| <= d), Above(d) (|x| >= d).*)
(***************************************************************************)
HalfUp(m) == NAdd(NShl(m, 1), NOne)     \* (m + 1/2) * 2
RoundMag(dt, r, Cmp(_)) ==               \* Cmp(d): sign of |x| - d
  IF r.c = "nan" THEN FALSE
  ELSE IF r.c = "inf"
  THEN Cmp(D(Z(FALSE, NSub(NPow2(Prec(dt) + 1), NOne)), QMax(dt) - 1)) >= 0
  ELSE LET even == ~NOdd(r.m)
           hi == D(Z(FALSE, HalfUp(r.m)), r.q - 1)
           \* below a power of two the neighbour is half as far away
           narrow == r.q > QMin(dt) /\ r.m = NPow2(Prec(dt) - 1)
           lo == IF narrow THEN D(Z(FALSE, NSub(NShl(r.m, 2), NOne)), r.q - 2)
                 ELSE D(Z(FALSE, NSub(NShl(r.m, 1), NOne)), r.q - 1)
           ch == Cmp(hi)
           cl == IF r.m = <<>> THEN 1 ELSE Cmp(lo)
       \* (the largest finite value is odd: a tie above it goes to infinity)
       IN /\ IF even THEN ch <= 0 ELSE ch < 0
          /\ IF even THEN cl >= 0 ELSE cl > 0

\* r is the rounding of the dyadic x (a zero result may have either sign)
RoundsTo(dt, x, r) ==
  /\ r.c # "nan"
  /\ IF DIsZero(x) THEN r.c = "fin" /\ r.m = <<>>
     ELSE /\ r.neg = x.z.neg
          /\ LET ax == DAbs(x)
                 C(d) == DCmp(ax, d)
             IN RoundMag(dt, r, C)

\* r is the rounding of a / b, b # 0
QuotRoundsTo(dt, a, b, r) ==
  /\ r.c # "nan"
  /\ IF DIsZero(a) THEN r.c = "fin" /\ r.m = <<>>
     ELSE /\ r.neg = (a.z.neg # b.z.neg)
          /\ LET aa == DAbs(a)
                 bb == DAbs(b)
                 C(d) == DCmp(aa, DMul(bb, d))
             IN RoundMag(dt, r, C)

\* r is the rounding of the square root of x >= 0
SqrtRoundsTo(dt, x, r) ==
  /\ r.c # "nan"
  /\ IF DIsZero(x) THEN r.c = "fin" /\ r.m = <<>>
     ELSE /\ ~r.neg
          /\ LET C(d) == DCmp(x, DMul(d, d)) IN RoundMag(dt, r, C)
=============================================================================
