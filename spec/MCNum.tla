-------------------------------- MODULE MCNum --------------------------------
(***************************************************************************)
(* The arithmetic that judges elements.  What:                             *)
(*   "small"  unbounded arithmetic against TLC's own integers              *)
(*   "wide"   its laws, for numbers of several limbs                       *)
(*   "wrap"   reduction to the integer types is the congruent value in     *)
(*            range, the small and the wide kind agree                     *)
(*   "round"  of all floats exactly the nearest (ties: even) is accepted,  *)
(*            for values, quotients and roots                              *)
(*   "exp"    the exponential satisfies e^x e^y = e^(x+y), 1+x <= e^x,     *)
(*            (1-x) e^x <= 1, which no other function does                 *)
(***************************************************************************)
EXTENDS RealFn

CONSTANTS What, Rich

VARIABLES c

Near(s) == UNION {{x - 1, x, x + 1} : x \in s}
SmallInts == {0, 1, 2, 3, 5, 7, 12, 100} \cup Near({255, 4096, 32768, 46340})
             \cup (IF Rich THEN 0..40 \cup Near({128, 65536, 4096 * 3, 30000, 4095 * 11}) ELSE {})
Limbs(n) == {Trim(s) : s \in UNION {[1..k -> {0, 1, 4095} \cup (IF Rich THEN {2048} ELSE {})] : k \in 0..n}}
\* mantissas of up to 31 bits
Mants == Near({2, 5, 8388608, 16777216, 16777216 + 8388608, 33554432, 67108864, 536870912, 1073741823})
         \cup {33554431 * 4 + k : k \in 0..8} \cup {16777216 * 8 + k : k \in 0..(IF Rich THEN 40 ELSE 17)}
Exps == {-6, 0, 3, QMin(Float) - 26, QMin(Float) - 3, QMin(Float), QMin(Float) + 5, QMax(Float) - 7, QMax(Float) - 1,
         QMax(Float), QMax(Float) + 1}
Points == {D(ZofInt(m), q) : m \in {-1, 1, 3, -7, 100, -193, 1021}, q \in {-12, -4, -1, 0}}
          \cup {DPow2(-40), D(ZofInt(-1), -40), D(ZofInt(88), 0), D(ZofInt(-700), 0)}
          \cup (IF Rich THEN {D(ZofInt(m), -5) : m \in {k * 37 : k \in -20..20}} ELSE {})

Init ==
  CASE What = "small" -> c \in {[a |-> a, b |-> b] : a \in SmallInts, b \in SmallInts}
    [] What = "wide" -> c \in {[a |-> a, b |-> b] : a \in Limbs(IF Rich THEN 4 ELSE 4), b \in Limbs(3)}
    [] What = "wrap" -> c \in {[a |-> a, dt |-> dt] : a \in {n * m : n \in {1, -1}, m \in SmallInts}, dt \in IntTypes}
    [] What = "round" -> c \in {[m |-> m, q |-> q] : m \in Mants, q \in Exps}
    [] What = "exp" -> c \in {[x |-> x, y |-> y] : x \in Points, y \in Points}
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

-----------------------------------------------------------------------------
Small ==
  What = "small" =>
    LET a == c.a
        b == c.b
        A == NofInt(a)
        Bn == NofInt(b)
    IN /\ NToInt(A) = a /\ NAdd(A, Bn) = NofInt(a + b)
       /\ (a >= b => NSub(A, Bn) = NofInt(a - b))
       /\ (a = 0 \/ b <= 2147483647 \div a) => NMul(A, Bn) = NofInt(a * b)
       /\ NCmp(A, Bn) = (IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0)
       /\ b > 0 => /\ NDiv(A, Bn).q = NofInt(a \div b) /\ NDiv(A, Bn).r = NofInt(a % b)
                   /\ NDivSmall(A, b).q = NofInt(a \div b) /\ NDivSmall(A, b).r = a % b
       /\ ZAdd(ZofInt(a), ZofInt(-b)) = ZofInt(a - b) /\ ZSub(ZofInt(-a), ZofInt(b)) = ZofInt(-a - b)
       /\ ZCmp(ZofInt(-a), ZofInt(-b)) = -NCmp(A, Bn)
       /\ \A k \in {0, 1, 5, 12, 13} : /\ (a < 200000 => NShl(A, k) = NofInt(a * 2 ^ k))
                                       /\ NShr(A, k) = NofInt(a \div 2 ^ k) /\ NLow(A, k) = NofInt(a % 2 ^ k)
       /\ NSqrt(A) = NofInt(CHOOSE s \in 0..500 : s * s <= a /\ a < (s + 1) * (s + 1))
       /\ b > 0 => TDiv(-a, b) = -(a \div b)
       /\ DCmp(D(ZofInt(a), 0), D(ZofInt(b), 2)) = (IF a > 4 * b THEN 1 ELSE IF a < 4 * b THEN -1 ELSE 0)

Wide ==
  What = "wide" =>
    LET a == c.a
        b == c.b
    IN /\ NSub(NAdd(a, b), b) = a /\ NAdd(a, b) = NAdd(b, a) /\ NMul(a, b) = NMul(b, a)
       /\ NMul(a, NAdd(b, NOne)) = NAdd(NMul(a, b), a)
       /\ b # <<>> => LET d == NDiv(a, b) IN NAdd(NMul(d.q, b), d.r) = a /\ NCmp(d.r, b) = -1
       /\ LET s == NSqrt(a) IN NCmp(NMul(s, s), a) <= 0 /\ NCmp(a, NMul(NAdd(s, NOne), NAdd(s, NOne))) = -1
       /\ \A k \in {1, 11, 12, 30} : /\ NAdd(NShl(NShr(a, k), k), NLow(a, k)) = a
                                     /\ NShr(NShl(a, k), k) = a /\ NBits(NLow(a, k)) <= k
       /\ NCmp(a, NPow2(NBits(a))) = -1 /\ (a # <<>> => NCmp(NPow2(NBits(a) - 1), a) <= 0)

WrapOk ==
  What = "wrap" =>
    LET z == ZofInt(c.a)
        w == ZWrap(c.dt, z)
        back == IF w.neg THEN NSub(NPow2(DBits(c.dt)), w.m) ELSE w.m
    IN /\ ZInRange(c.dt, w)
       /\ NLow(ZSub(z, w).m, DBits(c.dt)) = <<>>
       /\ ZInRange(c.dt, z) = (w = z)
       /\ DBits(c.dt) <= 16 => w = ZofInt(Wrap(c.dt, c.a))
       /\ InRange(c.dt, c.a) = ZInRange(c.dt, z)
       /\ IntOf(c.dt, back) = w

-----------------------------------------------------------------------------
\* the float with mantissa m (at most 2^24, a TLC integer) and quantum 2^q
F(neg, m, q) ==
  LET low == m < 8388608 /\ q > QMin(Float) /\ m > 0
      m1 == IF m = 16777216 THEN 8388608 ELSE IF low THEN 2 * m ELSE m
      q1 == IF m = 16777216 THEN q + 1 ELSE IF low THEN q - 1 ELSE IF m = 0 THEN QMin(Float) ELSE q
  IN IF q1 > QMax(Float) THEN [c |-> "inf", neg |-> neg, m |-> <<>>, q |-> 0]
     ELSE [c |-> "fin", neg |-> neg, m |-> NofInt(m1), q |-> q1]
BitLen(n) == NBits(NofInt(n))
\* m * 2^q rounded, by hand: the quantum is that of 24 bits, or the smallest
Chosen(m, q) ==
  LET up == Max2(q + BitLen(m) - 24, QMin(Float))   \* quantum of the result
      sh == up - q
      lo == IF sh <= 0 THEN m * 2 ^ (-sh) ELSE IF sh > 30 THEN 0 ELSE m \div 2 ^ sh
      rem == IF sh <= 0 THEN 0 ELSE IF sh > 30 THEN m ELSE m % 2 ^ sh
      twice(x) == IF sh > 30 THEN -1 ELSE x - (2 ^ (sh - 1))     \* rem against half
      more == IF sh <= 0 THEN FALSE
              ELSE twice(rem) > 0 \/ (twice(rem) = 0 /\ lo % 2 = 1)
  IN <<IF more THEN lo + 1 ELSE lo, up>>
Neighbours(n, up) == {F(neg, n + k, up) : neg \in {TRUE, FALSE}, k \in {j \in {-2, -1, 0, 1, 2} : n + j \in 0..16777216}}
                      \cup (IF n <= 8388609 /\ up > QMin(Float) THEN {F(FALSE, 16777215, up - 1), F(TRUE, 16777215, up - 1)} ELSE {})

RoundOk ==
  What = "round" =>
    LET x == D(ZofInt(c.m), c.q)
        ch == Chosen(c.m, c.q)
        best == F(FALSE, ch[1], ch[2])
        near == Neighbours(ch[1], ch[2])
        ok == {r \in near : RoundsTo(Float, x, r)}
        \* a zero has either sign
        want == {r \in near : r.c = best.c /\ r.m = best.m /\ r.q = best.q /\ (r.neg => FALSE)}
        three == DMul(x, DofInt(3))
        sq == DMul(x, x)
    IN /\ ok = want
       /\ {r \in near : RoundsTo(Float, DNeg(x), r)} = {[r EXCEPT !.neg = TRUE] : r \in want}
       /\ {r \in near : QuotRoundsTo(Float, three, DofInt(3), r)} = want
       /\ {r \in near : QuotRoundsTo(Float, three, DofInt(-3), r)} = {[r EXCEPT !.neg = TRUE] : r \in want}
       /\ {r \in near : SqrtRoundsTo(Float, sq, r)} = want

-----------------------------------------------------------------------------
Rel == DPow2(-60)
Close(a, b) == DLe(DAbs(DSub(a, b)), DMul(Rel, b))
ExpOk ==
  What = "exp" =>
    LET x == c.x
        y == c.y
        ex == ExpD(x)
    IN /\ Close(DMul(ex, ExpD(y)), ExpD(DAdd(x, y)))
       /\ DLe(DMul(DAdd(DofInt(1), x), DSub(DofInt(1), Rel)), ex)
       /\ DLe(DMul(DSub(DofInt(1), x), ex), DAdd(DofInt(1), Rel))
       /\ DLt(x, y) => DLt(ex, ExpD(y))
=============================================================================
