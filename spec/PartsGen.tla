------------------------------ MODULE PartsGen ------------------------------
(***************************************************************************)
(* Histories of shapes and storages.  A state is what every variable holds *)
(* and whether the user's own allocator is installed; model checking       *)
(* visits every one and prints one history per transition, a failing       *)
(* allocation included, which the driver replays.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

CONSTANTS NShapes, NStores, MaxNdim

VARIABLES sh,     \* shape k -> "none", "gone", or number of dims
          st,     \* storage k -> "none", "gone", "own", "given"
          custom, \* the user's allocator is installed
          hist

Base == [op |-> "", p |-> 0, dims |-> <<>>, n |-> <<0>>, dt |-> 0, dv |-> 0, di |-> 0, given |-> FALSE, fk |-> 0, fm |-> 0]
N == Len(hist)

\* where memory may run out, and whether from then on
Faults == {<<0, 0>>} \cup {<<k, m>> : k \in 1..3, m \in {0, 1}}
Dims(n) == [k \in 1..n |-> ((7 * N + 3 * k) % 5) + (IF n < 3 THEN 0 ELSE 1)]

Shapes == {[Base EXCEPT !.op = "shape", !.p = k, !.dims = Dims(n), !.n = <<lay>>, !.fk = f[1], !.fm = f[2]]
             : k \in {k \in 1..NShapes : sh[k] < 0}, n \in 0..MaxNdim, lay \in {0, 1}, f \in Faults}
Unshapes == {[Base EXCEPT !.op = "unshape", !.p = k] : k \in {0} \cup {k \in 1..NShapes : sh[k] # -2}}
Stores == {[Base EXCEPT !.op = "storage", !.p = k, !.n = <<n>>, !.dt = (3 * N + k) % 10, !.dv = (N + k) % 2, !.di = N,
                        !.given = g, !.fk = f[1], !.fm = f[2]]
             : k \in {k \in 1..NStores : st[k] \in {"none", "gone"}}, n \in {0, 1, 5}, g \in BOOLEAN, f \in Faults}
Unstores == {[Base EXCEPT !.op = "unstorage", !.p = k, !.n = <<t>>]
               : k \in {k \in 1..NStores : st[k] # "none"}, t \in {0, 1}}
            \cup {[Base EXCEPT !.op = "unstorage"]}

\* a look at everything (the driver leaves out what is not alive)
Looks == [k \in 1..NShapes |-> [Base EXCEPT !.op = "lookshape", !.p = k]]
         \o [k \in 1..NStores |-> [Base EXCEPT !.op = "lookstorage", !.p = k]]

Fails(c) == c.fk # 0 \* taken to fail: whether it does is for the driver to see
Commands == Shapes \cup Unshapes \cup Stores \cup Unstores

Do(c) ==
  /\ sh' = CASE c.op = "shape" /\ ~Fails(c) /\ c.n[1] = 0 -> [sh EXCEPT ![c.p] = Len(c.dims)]
             [] c.op = "unshape" /\ c.p > 0 -> [sh EXCEPT ![c.p] = -1]
             [] OTHER -> sh
  /\ st' = CASE c.op = "storage" /\ ~Fails(c) -> [st EXCEPT ![c.p] = IF c.given THEN "given" ELSE "own"]
             [] c.op = "unstorage" /\ c.p > 0 -> [st EXCEPT ![c.p] = "gone"]
             [] OTHER -> st
  /\ hist' = Append(hist, c)
  /\ UNCHANGED custom

Init == /\ sh = [k \in 1..NShapes |-> -2] /\ st = [k \in 1..NStores |-> "none"]
        /\ custom \in {0, 1} /\ hist = <<>>
Next == \E c \in Commands :
          /\ Do(c)
          /\ PrintT("HISTORY " \o ToJson([custom |-> custom, cmds |-> Append(hist, c) \o Looks]))
Spec == Init /\ [][Next]_<<sh, st, custom, hist>>
State == <<sh, st, custom>>
=============================================================================
