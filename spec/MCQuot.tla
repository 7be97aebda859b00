-------------------------------- MODULE MCQuot -------------------------------
(***************************************************************************)
(* When a call on tensors too large for a trace may be judged by a call on *)
(* their quotients (harness/huge.c, lib/huge.py).                          *)
(*                                                                         *)
(* A tensor of len elements consists of runs of equal elements; run j      *)
(* starts at position cut[j].  Its quotient has one element for each run.  *)
(* The specification has to accept an outcome of a call on the tensors     *)
(* exactly when it accepts the quotient of the outcome for the call on the *)
(* quotients, and no outcome that is not made of these runs:               *)
(*   runs     operations that work element by element, or keep the order   *)
(*   sums     sums of products where runs longer than 1 hold zeros         *)
(*   slices   the elements a slice takes, each with its successor          *)
(*   windows  windows that do not overlap                                  *)
(* For the last two, the elements elsewhere do not matter: other.          *)
(***************************************************************************)
EXTENDS Ops

CONSTANTS MaxLen, MaxVal

VARIABLES len, cut, v, w, done

vars == <<len, cut, v, w, done>>

Vals == 0..MaxVal
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Init ==
  /\ done = FALSE
  /\ len \in 1..MaxLen
  /\ \E S \in SUBSET (2..len) : cut = Sorted(S \cup {1})
  /\ v \in [1..Len(cut) -> Vals]
  /\ w \in [1..Len(cut) -> Vals]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<len, cut, v, w>>
Spec == Init /\ [][Next]_vars

RunOf(i) == CHOOSE j \in 1..Len(cut) : cut[j] <= i /\ (j = Len(cut) \/ i < cut[j + 1])
Spread(q) == [i \in 1..len |-> q[RunOf(i)]]
RunLen(j) == (IF j = Len(cut) THEN len + 1 ELSE cut[j + 1]) - cut[j]

T(dt, dims, data) == [dt |-> dt, dv |-> CPU, di |-> 0, dims |-> dims, data |-> data]
Call(op) == [op |-> op, t |-> <<1, 2>>, a |-> <<>>, b |-> <<>>, c |-> <<>>, d |-> <<>>, n |-> <<0>>, m |-> "max",
             dt |-> 1, dims |-> <<>>]

\* every outcome that differs from r in one element
Spoiled(r) == {[r EXCEPT ![i] = @ + 1] : i \in 1..Len(r)}
\* acceptance of the whole by acceptance of its quotient, for an outcome q of the quotient
Commutes(e, S, eq, Q, q) ==
  /\ DataOk(e, "s", S, Spread(q)) <=> DataOk(eq, "s", Q, q)
  /\ DataOk(eq, "s", Q, q) => \A r \in Spoiled(Spread(q)) : ~DataOk(e, "s", S, r)

Runs ==
  done =>
  LET S == <<T(Int8, <<len>>, Spread(v)), T(Int8, <<len>>, Spread(w))>>
      Q == <<T(Int8, <<Len(cut)>>, v), T(Int8, <<Len(cut)>>, w)>>
      K == 1..Len(cut)
      Want(op) == CASE op = "add" -> [j \in K |-> v[j] + w[j]]
                    [] op = "sub" -> [j \in K |-> v[j] - w[j]]
                    [] op = "mul" -> [j \in K |-> v[j] * w[j]]
                    [] OTHER -> v
  IN \A op \in {"add", "sub", "mul", "relu", "cast", "duplicate", "squeeze"} :
       LET e == Call(op)
       IN /\ DataOk(e, "s", S, Spread(Want(op)))
          /\ \A q \in {Want(op)} \cup Spoiled(Want(op)) : Commutes(e, S, e, Q, q)

LongZero == \A j \in 1..Len(cut) : RunLen(j) > 1 => v[j] * w[j] = 0
Sums ==
  done /\ LongZero =>
    LET S == <<T(Int32, <<len>>, Spread(v)), T(Int32, <<len>>, Spread(w))>>
        Q == <<T(Int32, <<Len(cut)>>, v), T(Int32, <<Len(cut)>>, w)>>
    IN \A op \in {"dot", "matmul"} :
         LET e == Call(op)
         IN /\ Errs(e, "s", S) = {} /\ Errs(e, "s", Q) = {}
            /\ OutMeta(e, S) = OutMeta(e, Q)
            /\ \A x \in 0..(len * MaxVal * MaxVal) : DataOk(e, "s", S, <<x>>) <=> DataOk(e, "s", Q, <<x>>)
            /\ \E x \in 0..(len * MaxVal * MaxVal) : DataOk(e, "s", S, <<x>>)
\* ... and longer runs of anything else do not have that property
SumsNeedZeros ==
  LET S == <<T(Int32, <<len>>, Spread(v)), T(Int32, <<len>>, Spread(w))>>
      Q == <<T(Int32, <<Len(cut)>>, v), T(Int32, <<Len(cut)>>, w)>>
  IN done /\ ~LongZero => \E x \in 0..(len * MaxVal * MaxVal) : DataOk(Call("dot"), "s", S, <<x>>) # DataOk(Call("dot"), "s", Q, <<x>>)

\* elements at the positions keep (ascending), other everywhere else
Placed(keep, q, other) == [i \in 1..len |-> IF \E j \in 1..Len(keep) : keep[j] = i - 1
                                            THEN q[CHOOSE j \in 1..Len(keep) : keep[j] = i - 1] ELSE other]
Ids(n) == [j \in 1..n |-> j + 10]

\* these do not depend on v and w
Once == done /\ Len(cut) = 1 /\ v[1] = 0 /\ w[1] = 0

Slices ==
  Once =>
  \A b \in 0..(len - 1) : \A z \in 1..(len - b) : \A st \in 2..(len + 1) :
    LET hits == {b + st * j : j \in 0..((z - 1) \div st)}
        keep == Sorted({x \in 0..(len - 1) : x \in hits \/ x - 1 \in hits})
        n == Cardinality(hits)
        k == Len(keep)
        e == [Call("slice") EXCEPT !.t = <<1>>, !.a = <<b>>, !.b = <<z>>, !.c = <<st>>]
        eq == [e EXCEPT !.a = <<0>>, !.b = <<MinI(k, 2 * n)>>, !.c = <<2>>]
        Q == <<T(Int8, <<k>>, Ids(k))>>
    IN \A other \in {0, 99} :
         LET S == <<T(Int8, <<len>>, Placed(keep, Ids(k), other))>>
         IN /\ Errs(e, "s", S) = {} /\ Errs(eq, "s", Q) = {}
            /\ OutMeta(e, S) = OutMeta(eq, Q)
            /\ LET r == [j \in 1..n |-> Ids(k)[2 * j - 1]]
               IN /\ DataOk(e, "s", S, r)
                  /\ \A x \in {r} \cup Spoiled(r) : DataOk(e, "s", S, x) <=> DataOk(eq, "s", Q, x)

Windows ==
  Once =>
  \A k \in 1..2 : \A d \in 1..3 : \A st \in 1..len :
    LET reach == d * (k - 1) + 1
        outs == (len - reach) \div st + 1
    IN (reach <= len /\ reach <= st) =>
      LET keep == Sorted({o * st + j * d : o \in 0..(outs - 1), j \in 0..(k - 1)})
          e == [Call("pooling") EXCEPT !.t = <<1>>, !.a = <<k>>, !.b = <<st>>, !.c = <<0>>, !.d = <<d>>]
          eq == [e EXCEPT !.b = <<k>>, !.d = <<1>>]
          Q == <<T(Int8, <<1, 1, Len(keep)>>, Ids(Len(keep)))>>
      IN \A other \in {0, 99} :
           LET S == <<T(Int8, <<1, 1, len>>, Placed(keep, Ids(Len(keep)), other))>>
               r == [o \in 1..outs |-> Ids(Len(keep))[o * k]]
           IN /\ Errs(e, "s", S) = {} /\ Errs(eq, "s", Q) = {}
              /\ OutMeta(e, S) = OutMeta(eq, Q)
              /\ DataOk(e, "s", S, r)
              /\ \A x \in {r} \cup Spoiled(r) : DataOk(e, "s", S, x) <=> DataOk(eq, "s", Q, x)
=============================================================================
