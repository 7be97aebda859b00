----------------------------- MODULE SamplesGen -----------------------------
(***************************************************************************)
(* Histories of commands on the objects of auto_test.  States are told     *)
(* apart by what the variables hold and share (Pattern), not by how they   *)
(* came to it: model checking visits every such state once, and prints one *)
(* history per transition, which the driver replays.  In simulation mode   *)
(* it draws long histories instead.                                        *)
(***************************************************************************)
EXTENDS Samples, Json, TLC

CONSTANTS Vars,       \* variables of the user, 0..n
          Cls,        \* classes to use
          Domain,     \* "all" commands which make sense, or those the library is "able" to do
          Depth       \* 0: every transition; n: histories of n commands

VARIABLES objs, next, hist

Base == [op |-> "", o |-> -1, p |-> -1, cls |-> "-", vec |-> 0, dev |-> 0, i |-> 0, parts |-> <<>>]

\* operands which differ from command to command; every third has no data yet
N == Len(hist)
APart(j) ==
  LET nd == (N + j) % 4
  IN [nd |-> nd, dims |-> [k \in 1..nd |-> N + 10 * k + j], dt |-> (N + j) % 10, dv |-> (N + j) % 2,
      len |-> 1 + ((3 * N + j) % 6), data |-> [k \in 1..(1 + ((3 * N + j) % 6)) |-> (37 * N + 11 * k + 101 * j) % 256]]
Empty(p) == [p EXCEPT !.len = 0, !.data = <<>>]

Makes ==
  {[Base EXCEPT !.op = "make", !.o = o, !.cls = k, !.vec = v,
                !.parts = [j \in 1..(IF k = "U" THEN 1 ELSE 2) |-> IF z = 1 THEN Empty(APart(j)) ELSE APart(j)]]
     : o \in Vars, k \in Cls \cap {"U", "B"}, v \in {0, 1}, z \in {0, 1}}
News == {[Base EXCEPT !.op = "new", !.o = o, !.cls = k] : o \in Vars, k \in Cls}
Pairs(op) == {[Base EXCEPT !.op = op, !.o = o, !.p = p] : o \in Vars, p \in Vars}
WithClass(op) == {[Base EXCEPT !.op = op, !.o = o, !.p = p, !.cls = k] : o \in Vars, p \in Vars, k \in Cls}
Singles ==
  {[Base EXCEPT !.op = "destroy", !.o = o] : o \in Vars}
  \cup {[Base EXCEPT !.op = "setres", !.o = o, !.parts = <<IF z = 1 THEN Empty(APart(1)) ELSE APart(1)>>] : o \in Vars, z \in {0, 1}}
  \cup {[Base EXCEPT !.op = "dev", !.o = o, !.dev = d] : o \in Vars, d \in {0, 1}}
  \cup {[Base EXCEPT !.op = "setdata", !.o = o, !.i = i, !.parts = <<APart(i)>>] : o \in Vars, i \in {1, 2}}

Commands ==
  {c \in Makes \cup News \cup Pairs("assign") \cup Pairs("setin") \cup Pairs("setresof")
         \cup WithClass("copy") \cup WithClass("move") \cup WithClass("wrap") \cup Singles
     : Enabled(c, objs) /\ (Domain = "all" \/ Able(c, objs))}

Do(c) == objs' = After(c, objs, next) /\ next' = next + 2 /\ hist' = Append(hist, c)

Init == objs = NoObjs /\ next = 1 /\ hist = <<>>

\* every transition
Every == \E c \in Commands : Do(c) /\ PrintT("HISTORY " \o ToJson(Append(hist, c)))
\* a random one, kinds of commands being equally likely
Draw ==
  /\ Len(hist) < Depth
  /\ \E cs \in {TLCEval(Commands)} :
     \E k \in {RandomElement({c.op : c \in cs})} :
     \E c \in {RandomElement({c \in cs : c.op = k})} : Do(c)
Next == IF Depth = 0 THEN Every ELSE Draw

Spec == Init /\ [][Next]_<<objs, next, hist>>
Printed == (Depth > 0 /\ Len(hist) = Depth) => PrintT("HISTORY " \o ToJson(hist))

\* who shares with whom, and which holders have data
First(g) == CHOOSE x \in Holders(objs) : H(objs, x).g = g
              /\ \A y \in Holders(objs) : H(objs, y).g = g => (x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]))
Pattern ==
  [s \in DOMAIN objs |->
     <<objs[s].cls,
       [k \in 1..Len(objs[s].hs) |->
          LET h == objs[s].hs[k]
          IN IF h.g = 0 THEN <<>>
             ELSE <<First(h.g), [j \in 1..Len(h.parts) |-> h.parts[j].data = <<>>]>>]>>]

Sharing == \A x \in Holders(objs) : H(objs, x).g \in 0..(next - 1)
=============================================================================
