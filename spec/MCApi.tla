-------------------------------- MODULE MCApi --------------------------------
(***************************************************************************)
(* The specification of the calls as a whole (Aitisa.tla), on a small      *)
(* universe of tensors of small integers: every history of Depth calls     *)
(* with every argument of the universe, any of which may find a request    *)
(* for memory refused.  The calls behave ideally: they do what Errs,       *)
(* OutMeta and DataOk ask for.                                             *)
(*                                                                         *)
(*   Total         every call has an outcome that Wrong accepts, with one  *)
(*                 status per kind of error and exactly one list of        *)
(*                 elements                                                *)
(*   Discerning    every outcome tampered with is found out, under the     *)
(*                 name of the obligation that it violates                 *)
(*   HeapConsistent, TensorsWellFormed   in every state reached            *)
(*   Untouched     a call changes no tensor but the one it makes, destroys *)
(*                 or writes                                               *)
(***************************************************************************)
EXTENDS Aitisa

CONSTANTS Depth, Family, Slots

VARIABLES n, next, verdict, touched

mvars == <<S, own, kind, memo, n, next, verdict, touched>>

Values == CASE Family = "arith" -> (-9..9) \cup (248..255) \cup {BigMark}
            [] Family = "products" -> -18..18
            [] Family = "windows" -> {-6, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 9, 10, 13, BigMark}
            [] OTHER -> (-6..6) \cup {BigMark}
Shape2 == CASE Family = "moves" -> {<<>>, <<2>>, <<1, 2>>, <<2, 1>>}
            [] Family \in {"arith", "soft"} -> {<<>>, <<2>>}
            [] Family = "products" -> {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
            [] Family = "windows" -> {<<1, 1, 2>>, <<2>>}
Types == CASE Family = "moves" -> {Int8, Float}
           [] Family \in {"arith", "soft"} -> {Uint8, Int32}
           [] Family = "products" -> {Int16}
           [] Family = "windows" -> {Float, Int8}

Base == [op |-> "", seg |-> 0, o |-> 0, p |-> 0, h |-> 0, t |-> <<>>, dt |-> 0, dv |-> 0, di |-> 0, x |-> <<>>,
         hasx |-> 0, dims |-> <<>>, a |-> <<>>, b |-> <<>>, c |-> <<>>, d |-> <<>>, n |-> <<>>, m |-> "", xd |-> <<0, 0, 0, 0, 0, 0>>,
         len |-> 0, key |-> "", st |-> 0, oh |-> 0, has |-> 0, ret |-> <<>>, mem |-> <<>>, chg |-> <<>>, al |-> <<>>,
         ac |-> 0, gd |-> 0, fired |-> 0, adopt |-> 0, same |-> 1, out |-> <<>>]

Free == Slots \ DOMAIN S
T == DOMAIN S
Rk(s) == Len(S[s].dims)
Small2 == {-1, 0, 2}

Creates == {[Base EXCEPT !.op = "create", !.dt = dt, !.dims = d, !.hasx = 1, !.x = [i \in {1, 2} |-> Small(dt, x[i])], !.len = w * DSize(dt)]
              : dt \in Types, d \in Shape2, x \in {<<0, 2>>, <<3, -1>>, <<-2, 1>>}, w \in {1, 2}}
           \cup {[Base EXCEPT !.op = "full", !.dt = dt, !.dims = d] : dt \in Types, d \in Shape2}
Moves == {[Base EXCEPT !.op = "duplicate", !.t = <<s>>] : s \in T}
         \cup {[Base EXCEPT !.op = "reshape", !.t = <<s>>, !.dims = d] : s \in T, d \in Shape2}
         \cup UNION {{[Base EXCEPT !.op = "squeeze", !.t = <<s>>, !.a = a, !.n = <<Len(a)>>]
                        : a \in {<<>>, <<0>>, <<1>>, <<-1>>}} : s \in T}
         \cup UNION {{[Base EXCEPT !.op = "slice", !.t = <<s>>, !.a = a, !.b = b, !.c = c]
                        : a \in [1..Rk(s) -> 0..1], b \in [1..Rk(s) -> 0..2], c \in [1..Rk(s) -> {1}]} : s \in T}
         \cup {[Base EXCEPT !.op = "cast", !.t = <<s>>, !.dt = dt] : s \in T, dt \in {Int8, Float, 12}}
Arith == {[Base EXCEPT !.op = op, !.t = <<s, u>>] : op \in BinaryOps, s \in T, u \in T}
         \cup {[Base EXCEPT !.op = op, !.t = <<s>>] : op \in UnaryOps \ {"sigmoid", "tanh"}, s \in T}
         \cup {[Base EXCEPT !.op = "tanh", !.t = <<s>>] : s \in {x \in T : S[x].dt # Float}}
Soft == {[Base EXCEPT !.op = "softmax", !.t = <<s>>, !.n = <<ax>>] : s \in {x \in T : S[x].dt # Float}, ax \in {-2, -1, 0}}
Products == {[Base EXCEPT !.op = op, !.t = <<s, u>>] : op \in {"matmul", "dot"}, s \in T, u \in T}
Windows == {[Base EXCEPT !.op = "pooling", !.t = <<s>>, !.m = m, !.a = <<kp[1]>>, !.b = <<1>>, !.c = <<kp[2]>>, !.d = <<1>>]
              : m \in {"max", "avg", "min"}, kp \in {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<5, 0>>, <<5, 1>>}, s \in T}
           \cup {[Base EXCEPT !.op = "conv", !.t = <<s, u>>, !.a = <<st>>, !.b = <<p>>, !.c = <<1>>, !.n = <<g>>]
              : st \in {1, 2}, p \in {0, -1}, g \in {1, 2}, s \in T, u \in T}

Makers == Creates \cup (CASE Family = "moves" -> Moves [] Family = "arith" -> Arith [] Family = "soft" -> Soft
                          [] Family = "products" -> Products [] Family = "windows" -> Windows)

-----------------------------------------------------------------------------
(* Ideal outcomes.                                                          *)

Candidates(e) ==
  LET m == OutMeta(e, S)
  IN {d \in [1..Prod(m.dims) -> Values] : DataOk(e, kind, S, d)}
Tensor(e, d) ==
  LET m == OutMeta(e, S)
  IN [dt |-> m.dt, ts |-> DSize(m.dt), dv |-> m.dv, di |-> m.di, lay |-> 0, sz |-> Prod(m.dims), dims |-> m.dims, data |-> d]
\* two blocks, and a third one that is given back
Got == <<<<1, next>>, <<1, next + 1>>, <<1, next + 2>>, <<2, next + 1>>>>
Undone == <<<<1, next>>, <<3, 0>>, <<2, next>>>>
Success(e, d) == [e EXCEPT !.st = SUCCESS, !.oh = 1, !.has = 1, !.out = Tensor(e, d), !.mem = Got]
Failure(e, st) == [e EXCEPT !.st = st]
Refused(e) == [e EXCEPT !.st = ALLOC_FAILED, !.fired = 1, !.mem = Undone]

-----------------------------------------------------------------------------
(* Tampering.                                                               *)

Tampered(g) ==     \* outcome -> the obligation it must be found to violate
  LET ok == g.has = 1
      some == DOMAIN own
      victim == CHOOSE b \in some : TRUE
  IN {<<[g EXCEPT !.chg = <<1>>], "frame">>, <<[g EXCEPT !.al = <<1>>], "alias">>, <<[g EXCEPT !.ac = 1], "args">>,
      <<[g EXCEPT !.gd = 1], "args">>,
      <<[g EXCEPT !.mem = Append(@, <<4, 0>>)], "ledger">>,
      <<[g EXCEPT !.mem = @ \o <<<<5, next + 7>>, <<6, next + 7>>>>], "raw">>,
      <<[g EXCEPT !.oh = 1 - @], "handle">>}
     \cup (IF some # {} THEN {<<[g EXCEPT !.mem = Append(@, <<2, victim>>)], "ledger">>} ELSE {})
     \cup (IF ok
           THEN {<<[g EXCEPT !.st = INTERNAL_ERROR], "status">>,
                 <<[g EXCEPT !.out.dims = Append(@, 1)], "meta">>, <<[g EXCEPT !.out.dt = (@ + 1) % 10], "meta">>,
                 <<[g EXCEPT !.out.dv = 1 - @], "meta">>, <<[g EXCEPT !.out.sz = @ + 1], "meta">>,
                 <<[g EXCEPT !.oh = 0, !.has = 0], "handle">>, <<[g EXCEPT !.mem = <<>>], "ledger">>,
                 <<[g EXCEPT !.mem = Append(@, <<2, next + 1>>)], "ledger">>}
                \cup (IF g.op # "create" \/ g.hasx = 1
                      THEN {<<[g EXCEPT !.out.data[i] = IF @ = BigMark THEN 0 ELSE @ + 1], "data">> : i \in 1..Len(g.out.data)} ELSE {})
                \cup (IF g.fired = 0 THEN {<<[g EXCEPT !.fired = 1, !.st = INTERNAL_ERROR], "fault">>} ELSE {})
           ELSE {<<[g EXCEPT !.mem = Append(@, <<1, next + 5>>)], "ledger">>}
                \cup (CASE g.st = SUCCESS -> {}
                        [] g.fired = 0 -> {<<[g EXCEPT !.st = SUCCESS], "status">>, <<[g EXCEPT !.st = INTERNAL_ERROR], "status">>}
                        \* it may succeed all the same, but then with its tensor
                        [] OTHER -> {<<[g EXCEPT !.st = INTERNAL_ERROR], "fault">>}
                                    \cup (IF MakesNothing(g, S) /\ Errs(g, kind, S) = {} THEN {}
                                          ELSE {<<[g EXCEPT !.st = SUCCESS], IF Errs(g, kind, S) = {} THEN "handle" ELSE "status">>})))

\* the last word about a call: Total and Discerning
Judge(e, outs) ==
  LET bad == {g \in outs : Wrong(g) # {}}
      missed == {x \in UNION {Tampered(g) : g \in outs} : x[2] \notin Wrong(x[1])}
  IN IF bad # {} THEN <<"rejected", CHOOSE g \in bad : TRUE>>
     ELSE IF missed # {} THEN <<"missed", CHOOSE x \in missed : TRUE>> ELSE <<"ok">>

Outs(e) ==
  LET errs == Errs(e, kind, S)
  IN IF errs # {} THEN {Failure(e, st) : st \in errs}
     ELSE IF MakesNothing(e, S) THEN {Failure(e, SUCCESS)}
     ELSE {Success(e, d) : d \in IF e.op = "create" /\ e.hasx = 0 THEN {} ELSE Candidates(e)}
Unique(e, outs) == Errs(e, kind, S) # {} \/ Cardinality(outs) = 1

Make ==
  \E s \in Free, e0 \in Makers :
    LET e == [e0 EXCEPT !.o = s]
    IN \E outs \in {TLCEval(Outs(e))} :
       /\ verdict' = IF ~Unique(e, outs) THEN <<"outcomes", Cardinality(outs), e>> ELSE Judge(e, outs \cup {Refused(e)})
       /\ \E g \in outs \cup {Refused(e)} : TensorOp(g)
       /\ touched' = {s}
       /\ next' = next + 8

Kill ==
  \E s \in T :
    LET bs == SetToSeq(Owned(own, s))
        e == [Base EXCEPT !.op = "destroy", !.t = <<s>>, !.ret = <<1>>,
                          !.mem = [i \in 1..Len(bs) |-> <<2, bs[i]>>]]
        bad == {x \in {<<[e EXCEPT !.st = 7], "status">>, <<[e EXCEPT !.ret = <<0>>], "handle">>,
                       <<[e EXCEPT !.mem = Tail(@)], "ledger">>, <<[e EXCEPT !.mem = Append(@, @[1])], "ledger">>,
                       <<[e EXCEPT !.chg = <<2>>], "frame">>} : x[2] \notin Wrong(x[1])}
    IN /\ verdict' = IF Wrong(e) # {} THEN <<"rejected", e>> ELSE IF bad # {} THEN <<"missed", bad>> ELSE <<"ok">>
       /\ Destroy(e)
       /\ touched' = {s} /\ next' = next

Item ==
  \E s \in T, v \in {1, -2} :
    Size(S[s]) > 0 /\
    LET e == [Base EXCEPT !.op = "setitem", !.t = <<s>>, !.n = <<0>>, !.x = <<v>>,
                          !.out = [ts |-> DSize(S[s].dt), lay |-> 0, sz |-> Size(S[s]), dt |-> S[s].dt, dv |-> S[s].dv,
                                   di |-> S[s].di, dims |-> S[s].dims, data |-> [S[s].data EXCEPT ![1] = v]]]
        bad == {x \in {<<[e EXCEPT !.out.data[1] = 9], "data">>, <<[e EXCEPT !.out.dims = <<7>>], "meta">>,
                       <<[e EXCEPT !.chg = <<1>>], "frame">>, <<[e EXCEPT !.mem = <<<<1, next>>>>], "ledger">>}
                  : x[2] \notin Wrong(x[1])}
    IN /\ verdict' = IF Wrong(e) # {} THEN <<"rejected", e>> ELSE IF bad # {} THEN <<"missed", bad>> ELSE <<"ok">>
       /\ Write(e)
       /\ touched' = {s} /\ next' = next

Init == AInit /\ n = 0 /\ next = 1 /\ verdict = <<"ok">> /\ touched = {}
Next == n < Depth /\ n' = n + 1 /\ (Make \/ Kill \/ Item)
Spec == Init /\ [][Next]_mvars

Fine == verdict = <<"ok">>
Untouched == [][\A s \in (DOMAIN S \cup DOMAIN S') \ touched' :
                  s \in DOMAIN S /\ s \in DOMAIN S' /\ S'[s] = S[s]]_mvars
Modest == \A s \in DOMAIN S : \A i \in 1..Len(S[s].data) : S[s].data[i] \in -3..3
\* how the blocks are numbered does not matter
View == <<S, n, verdict = <<"ok">>, HeapConsistent, Cardinality(DOMAIN own), touched>>
=============================================================================
