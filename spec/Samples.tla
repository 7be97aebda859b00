------------------------------- MODULE Samples ------------------------------
(***************************************************************************)
(* The inputs, results and samples of auto_test and the buffers they own.  *)
(*                                                                         *)
(* objs maps a variable of the user to an object [cls, hs].  The classes:  *)
(*   "U" Unary_Input   "B" Binary_Input   "R" Result                       *)
(*   "X" Sample<Unary_Input>   "Y" Sample<Binary_Input>                    *)
(* hs are its holders: one for an input or a result, two for a sample (its *)
(* input and its result).  A holder [g, parts] holds the bundle of buffers *)
(* g (0: it owns nothing) and reports parts, one for each operand.         *)
(* What a command does to the objects does not depend on how buffers are   *)
(* counted: copies and assignments hold the same bundle, moves hand it     *)
(* over, set_result makes a new one.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

NoObjs == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Classes == {"U", "B", "R", "X", "Y"}
\* operands of the holders of a class
Shape(cls) == CASE cls = "U" -> <<1>> [] cls = "B" -> <<2>> [] cls = "R" -> <<1>>
                [] cls = "X" -> <<1, 1>> [] cls = "Y" -> <<2, 1>>
InputClass(cls) == IF cls = "X" THEN "U" ELSE "B"
ResultAt(cls) == IF cls = "R" THEN 1 ELSE 2        \* the holder of the result
HasResult(cls) == cls \in {"R", "X", "Y"}

NoPart == [nd |-> 0, dims |-> <<>>, dt |-> 0, dv |-> 0, len |-> 0, data |-> <<>>]
PartOf(p) == [nd |-> p.nd, dims |-> p.dims, dt |-> p.dt, dv |-> p.dv, len |-> p.len, data |-> p.data]

Holder(g, parts) == [g |-> g, parts |-> parts]
Moved(h) == [h EXCEPT !.g = 0]
\* gone holders report what they like
Holders(objs) == {<<s, k>> \in (DOMAIN objs) \X {1, 2} : k <= Len(objs[s].hs)}
H(objs, x) == objs[x[1]].hs[x[2]]
Used(objs) == {H(objs, x).g : x \in Holders(objs)} \ {0}
Alone(objs, g) == Cardinality({x \in Holders(objs) : H(objs, x).g = g}) = 1

\* new bundles are numbered next, next + 1
Fresh(cls, next) ==
  [k \in 1..Len(Shape(cls)) |-> Holder(next + k - 1, [j \in 1..Shape(cls)[k] |-> NoPart])]

\* the commands which make sense
Enabled(c, objs) ==
  CASE c.op \in {"new", "make"} -> c.o \notin DOMAIN objs
    [] c.op \in {"copy", "move"} -> c.o \notin DOMAIN objs /\ c.p \in DOMAIN objs /\ c.cls = objs[c.p].cls
    [] c.op = "wrap" -> c.o \notin DOMAIN objs /\ c.p \in DOMAIN objs /\ c.cls \in {"X", "Y"}
                        /\ objs[c.p].cls = InputClass(c.cls)
    [] c.op = "assign" -> c.o \in DOMAIN objs /\ c.p \in DOMAIN objs /\ objs[c.o].cls = objs[c.p].cls
    [] c.op = "setin" -> c.o \in DOMAIN objs /\ c.p \in DOMAIN objs /\ objs[c.o].cls \in {"X", "Y"}
                         /\ objs[c.p].cls = InputClass(objs[c.o].cls)
    [] c.op = "setres" -> c.o \in DOMAIN objs /\ HasResult(objs[c.o].cls)
    [] c.op = "setresof" -> /\ c.o \in DOMAIN objs /\ c.p \in DOMAIN objs
                            /\ HasResult(objs[c.o].cls) /\ HasResult(objs[c.p].cls)
                            /\ objs[c.p].hs[ResultAt(objs[c.p].cls)].g # 0
    \* giving data to an input that has none and shares nothing
    [] c.op = "setdata" -> /\ c.o \in DOMAIN objs /\ objs[c.o].cls \in {"U", "B"}
                           /\ LET h == objs[c.o].hs[1]
                              IN h.g # 0 /\ c.i <= Len(h.parts) /\ h.parts[c.i].data = <<>>
                                 /\ h.parts[c.i].len = 0 /\ Alone(objs, h.g)
    [] c.op = "dev" -> c.o \in DOMAIN objs /\ objs[c.o].cls \in {"U", "B"} /\ objs[c.o].hs[1].g # 0
    [] c.op = "destroy" -> c.o \in DOMAIN objs

\* those the library as it stands can do: it assigns no results and so no
\* samples, follows the null pointer of what was moved from, gives its own
\* buffers back before it takes them over again, copies a sample to move it, and
\* sets a result only once (each of these is listed in known-findings.txt)
Able(c, objs) ==
  LET Has(o) == \A k \in DOMAIN objs[o].hs : objs[o].hs[k].g # 0
      Unset(o) == LET h == objs[o].hs[ResultAt(objs[o].cls)]
                  IN h.g # 0 /\ h.parts = <<NoPart>> /\ Alone(objs, h.g)
  IN CASE c.op = "copy" -> Has(c.p)
       [] c.op = "move" -> c.cls \notin {"X", "Y"}
       [] c.op = "wrap" -> objs[c.p].hs[1].g # 0
       [] c.op = "assign" -> c.o # c.p /\ objs[c.o].cls \in {"U", "B"} /\ Has(c.o) /\ Has(c.p)
       [] c.op = "setin" -> objs[c.o].hs[1].g # 0 /\ objs[c.p].hs[1].g # 0
       [] c.op = "setres" -> Unset(c.o) /\ PartOf(c.parts[1]) # NoPart
       [] c.op = "setresof" -> Unset(c.o) /\ objs[c.p].hs[ResultAt(objs[c.p].cls)].parts # <<NoPart>>
       [] OTHER -> TRUE

SetHolder(objs, o, k, h) == [objs EXCEPT ![o].hs[k] = h]

\* the objects after command c
After(c, objs, next) ==
  CASE c.op = "new" -> Put(objs, c.o, [cls |-> c.cls, hs |-> Fresh(c.cls, next)])
    [] c.op = "make" -> Put(objs, c.o, [cls |-> c.cls, hs |-> <<Holder(next, [j \in 1..Len(c.parts) |-> PartOf(c.parts[j])])>>])
    [] c.op = "copy" -> Put(objs, c.o, objs[c.p])
    [] c.op = "move" -> Put([objs EXCEPT ![c.p].hs = [k \in DOMAIN @ |-> Moved(@[k])]], c.o, objs[c.p])
    [] c.op = "wrap" -> Put(objs, c.o, [cls |-> c.cls, hs |-> <<objs[c.p].hs[1], Holder(next, <<NoPart>>)>>])
    [] c.op = "assign" -> [objs EXCEPT ![c.o].hs = objs[c.p].hs]
    [] c.op = "setin" -> SetHolder(objs, c.o, 1, objs[c.p].hs[1])
    [] c.op = "setres" -> SetHolder(objs, c.o, ResultAt(objs[c.o].cls), Holder(next, <<PartOf(c.parts[1])>>))
    [] c.op = "setresof" -> SetHolder(objs, c.o, ResultAt(objs[c.o].cls),
                                      Holder(next, objs[c.p].hs[ResultAt(objs[c.p].cls)].parts))
    [] c.op = "setdata" -> [objs EXCEPT ![c.o].hs[1].parts[c.i].data = c.parts[1].data,
                                        ![c.o].hs[1].parts[c.i].len = c.parts[1].len]
    [] c.op = "dev" -> [objs EXCEPT ![c.o].hs[1].parts = [j \in DOMAIN @ |-> [@[j] EXCEPT !.dv = c.dev]]]
    [] c.op = "destroy" -> Del(objs, c.o)
=============================================================================
