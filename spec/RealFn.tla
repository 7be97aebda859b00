------------------------------- MODULE RealFn -------------------------------
(***************************************************************************)
(* The exponential function on dyadics, in fixed point with 84 fractional  *)
(* bits, to a relative precision of about 2^-65, and the acceptance        *)
(* predicates of sigmoid, tanh and softmax built on it.                    *)
(***************************************************************************)
EXTENDS Ieee, TLC

FB == 84
\* floor(ln 2 * 2^84)
Ln2 == <<3643, 3017, 1946, 463, 3965, 535, 2839>>
FOne == NPow2(FB)
FMul(a, b) == NShr(NMul(a, b), FB)

\* 1 + r/1 (1 + r/2 (1 + r/3 ...)) for 0 <= r < 2^-8, r in fixed point
RECURSIVE Taylor(_, _, _)
Taylor(r, k, acc) ==
  IF k = 0 THEN acc
  ELSE Taylor(r, k - 1, NAdd(FOne, NDivSmall(FMul(r, acc), k).q))
RECURSIVE SquareN(_, _)
SquareN(a, k) == IF k = 0 THEN a ELSE SquareN(FMul(a, a), k - 1)

\* e^x for a dyadic x with |x| <= 1024, as a dyadic
ExpD(x) ==
  IF DIsZero(x) THEN DofInt(1)
  ELSE
  LET f == DFix(x, FB)
      dv == NDiv(f.m, Ln2)
      exact == dv.r = <<>>
      k0 == NToInt(dv.q)
      \* floor division of the signed value
      k == IF ~f.neg THEN k0 ELSE IF exact THEN -k0 ELSE -k0 - 1
      r == IF ~f.neg THEN dv.r ELSE IF exact THEN <<>> ELSE NSub(Ln2, dv.r)
      e == SquareN(Taylor(NShr(r, 8), 9, FOne), 8)
  IN D(Z(FALSE, e), k - FB)

Limit == 800
ClampedExp(x) ==     \* e^x, with |x| cut off at 800
  ExpD(IF DCmp(x, DofInt(Limit)) > 0 THEN DofInt(Limit)
       ELSE IF DCmp(x, DofInt(-Limit)) < 0 THEN DofInt(-Limit) ELSE x)

\* relative precision asked of the results, and the absolute slack for
\* results that the type can only hold as denormals
RelTol(dt) == IF dt = Float THEN DPow2(-20) ELSE DPow2(-44)
Tiny(dt) == DPow2(EMin(dt) + 1)

Unit(r) == r.c = "fin" /\ (~r.neg \/ r.m = <<>>) /\ DLe(FDyadic(r), DofInt(1))

\* r = 1 / (1 + e^-x)
SigmoidOk(dt, x, r) ==
  /\ Unit(r)
  /\ IF x.c = "inf" THEN DEq(FDyadic(r), DofInt(IF x.neg THEN 0 ELSE 1))
     ELSE LET s == DAdd(DofInt(1), ClampedExp(DNeg(FDyadic(x))))
          IN DLe(DAbs(DSub(DMul(FDyadic(r), s), DofInt(1))),
                 DAdd(RelTol(dt), DMul(Tiny(dt), s)))

\* r = (e^2x - 1) / (e^2x + 1)
TanhOk(dt, x, r) ==
  /\ r.c = "fin"
  /\ DLe(DAbs(FDyadic(r)), DofInt(1))
  /\ IF x.c = "inf" THEN DEq(FDyadic(r), DofInt(IF x.neg THEN -1 ELSE 1))
     ELSE LET xd == FDyadic(x)
              rd == FDyadic(r)
              slack == DPow2(-50)
          IN IF DLe(DAbs(xd), DPow2(-30))
             THEN DLe(DAbs(DSub(rd, xd)), DAdd(DMul(RelTol(dt), DAbs(xd)), slack))
             ELSE LET e == ClampedExp(DScale(xd, 1))
                      p == DAdd(e, DofInt(1))
                      m == DSub(e, DofInt(1))
                  IN DLe(DAbs(DSub(DMul(rd, p), m)),
                         DAdd(DMul(RelTol(dt), DAbs(m)), DMul(slack, p)))

(***************************************************************************)
(* Softmax of one group: xs, rs sequences of dyadics (arguments, results). *)
(***************************************************************************)
DMaxSeq(xs) == FoldLeft(DMax, xs[1], xs)
\* (equal arguments share the work)
SoftmaxExps(xs) ==
  LET mx == TLCEval(DMaxSeq(xs))
      ex == TLCEval([x \in {xs[i] : i \in 1..Len(xs)} |-> TLCEval(ClampedExp(DSub(x, mx)))])
  IN TLCEval([i \in 1..Len(xs) |-> ex[xs[i]]])

SoftmaxOk(dt, xs, rs) ==
  LET es == TLCEval(SoftmaxExps(xs))
      sum == TLCEval(DSum(es))
      n == Len(xs)
      mx == TLCEval(DMaxSeq(xs))
      ulp == IF dt = Float THEN DPow2(-22) ELSE DPow2(-50)
  IN \A p \in {<<xs[i], es[i], rs[i]>> : i \in 1..n} :
       LET r == FDyadic(p[3])
           far == DSub(mx, p[1])
           rel == DMul(ulp, DAdd(DofInt(n + 8),
                                 IF DLe(far, DofInt(Limit)) THEN far ELSE DofInt(Limit)))
       IN /\ Unit(p[3])
          /\ DLe(DAbs(DSub(DMul(r, sum), p[2])),
                 DAdd(DMul(rel, p[2]), DMul(Tiny(dt), sum)))

\* integer types: the quotient truncated; 1 needs a quotient of (almost) one
SoftmaxIntOk(xs, rs) ==
  LET es == TLCEval(SoftmaxExps(xs))
      sum == TLCEval(DSum(es))
      n == Len(xs)
  IN \A i \in 1..n :
       \/ rs[i] = 0 /\ (n > 1) 
                    /\ ~DEq(es[i], sum)
       \/ /\ rs[i] = 1
          /\ DLe(DMul(sum, DSub(DofInt(1), DPow2(-40))), es[i])
=============================================================================
