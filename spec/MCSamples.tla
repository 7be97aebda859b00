------------------------------ MODULE MCSamples -----------------------------
(***************************************************************************)
(* The reference counting of auto_test/sample.{h,cpp} against the sharing  *)
(* that Samples.tla asks for.  Every holder has a pointer p to a counter   *)
(* (0: null) and to a bundle of buffers g.  cnt maps the counters that are *)
(* allocated to their values, live are the bundles that are.               *)
(*                                                                         *)
(* Flaws are ways in which the library's counting differs from a sound one *)
(*   "assign"  assignment lets go of its own bundle before it takes the    *)
(*             other one, and takes for granted that there are two         *)
(*   "leak"    the last holder of a result leaves the counter behind       *)
(*   "setres"  set_result replaces the buffers and keeps the counter       *)
(*   "copy"    a copy of what was moved from follows the null pointer      *)
(***************************************************************************)
EXTENDS SamplesGen

CONSTANT Flaws

VARIABLES im,    \* <<slot, k>> -> [p, g]
          mem    \* [cnt, live, bad]

mvars == <<objs, next, hist, im, mem>>

Null == [p |-> 0, g |-> 0]
Mem0 == [cnt |-> NoObjs, live |-> {}, bad |-> FALSE]

\* a new counter and bundle, both numbered g
New(m, g) == [m EXCEPT !.cnt = Put(@, g, 1), !.live = @ \cup {g}]
Hold(m, h) == IF h.p = 0 THEN (IF "copy" \in Flaws THEN [m EXCEPT !.bad = TRUE] ELSE m)
              ELSE IF h.p \notin DOMAIN m.cnt THEN [m EXCEPT !.bad = TRUE]
              ELSE [m EXCEPT !.cnt[h.p] = @ + 1]
Release(m, h, keep) ==
  IF h.p = 0 THEN m
  ELSE IF h.p \notin DOMAIN m.cnt THEN [m EXCEPT !.bad = TRUE]
  ELSE IF m.cnt[h.p] > 1 THEN [m EXCEPT !.cnt[h.p] = @ - 1]
  ELSE [m EXCEPT !.cnt = IF keep THEN [@ EXCEPT ![h.p] = 0] ELSE Del(@, h.p),
                 !.live = @ \ {h.g}, !.bad = @ \/ h.g \notin m.live]

AssignMem(m, ho, hp) ==
  IF "assign" \in Flaws
  THEN IF ho.p = 0 \/ hp.p = 0 THEN [m EXCEPT !.bad = TRUE]
       ELSE Hold(Release(m, ho, TRUE), hp)
  ELSE Release(Hold(m, hp), ho, FALSE)
DropMem(m, cls, k, h) == Release(m, h, "leak" \in Flaws /\ HasResult(cls) /\ k = ResultAt(cls))

\* the holders of a class, one after the other
Both(cls, m, Op(_, _)) == LET m1 == Op(m, 1) IN IF Len(Shape(cls)) = 2 THEN Op(m1, 2) ELSE m1
Ks(cls) == 1..Len(Shape(cls))

Impl(c) ==
  LET o == c.o
      p == c.p
      cls == IF o \in DOMAIN objs THEN objs[o].cls ELSE c.cls
      NewH(k) == [p |-> next + k - 1, g |-> next + k - 1]
      SetI(f) == [x \in {y \in DOMAIN im : y[1] # o} \cup {<<o, k>> : k \in Ks(cls)} |->
                    IF x[1] = o THEN f[x[2]] ELSE im[x]]
  IN CASE c.op \in {"new", "make"} ->
            /\ im' = SetI([k \in Ks(cls) |-> NewH(k)])
            /\ mem' = Both(cls, mem, LAMBDA m, k : New(m, next + k - 1))
       [] c.op = "copy" ->
            /\ im' = SetI([k \in Ks(cls) |-> im[<<p, k>>]])
            /\ mem' = Both(cls, mem, LAMBDA m, k : Hold(m, im[<<p, k>>]))
       [] c.op = "move" ->
            /\ im' = [x \in DOMAIN SetI([k \in Ks(cls) |-> Null]) |->
                        IF x[1] = o THEN im[<<p, x[2]>>] ELSE IF x[1] = p THEN Null ELSE im[x]]
            /\ mem' = mem
       [] c.op = "wrap" ->
            /\ im' = SetI([k \in {1, 2} |-> IF k = 1 THEN im[<<p, 1>>] ELSE [p |-> next, g |-> next]])
            /\ mem' = New(Hold(mem, im[<<p, 1>>]), next)
       [] c.op = "assign" ->
            /\ im' = SetI([k \in Ks(cls) |-> im[<<p, k>>]])
            /\ mem' = Both(cls, mem, LAMBDA m, k : AssignMem(m, im[<<o, k>>], im[<<p, k>>]))
       [] c.op = "setin" ->
            /\ im' = [im EXCEPT ![<<o, 1>>] = im[<<p, 1>>]]
            /\ mem' = AssignMem(mem, im[<<o, 1>>], im[<<p, 1>>])
       [] c.op \in {"setres", "setresof"} ->
            LET x == <<o, ResultAt(cls)>>
            IN IF "setres" \in Flaws
               THEN im' = [im EXCEPT ![x].g = next] /\ mem' = [mem EXCEPT !.live =
                        (IF H(objs, x).parts = <<NoPart>> THEN @ \ {im[x].g} ELSE @) \cup {next}]
               ELSE im' = [im EXCEPT ![x] = NewH(1)] /\ mem' = Release(New(mem, next), im[x], FALSE)
       [] c.op = "destroy" ->
            /\ im' = [x \in {y \in DOMAIN im : y[1] # o} |-> im[x]]
            /\ mem' = Both(cls, mem, LAMBDA m, k : DropMem(m, cls, k, im[<<o, k>>]))
       [] OTHER -> UNCHANGED <<im, mem>>

MInit == Init /\ im = NoObjs /\ mem = Mem0
MNext == \E c \in Commands : Do(c) /\ Impl(c)
MSpec == MInit /\ [][MNext]_mvars

\* the counting does what Samples.tla asks for
Buffers ==
  /\ ~mem.bad
  /\ mem.live = Used(objs)
  /\ \A x \in DOMAIN im : im[x].g = H(objs, x).g /\ (im[x].p = 0 <=> im[x].g = 0)
Counts ==
  /\ Buffers
  /\ DOMAIN mem.cnt = {im[x].p : x \in DOMAIN im} \ {0}
  /\ \A p \in DOMAIN mem.cnt : mem.cnt[p] = Cardinality({x \in DOMAIN im : im[x].p = p})
\* with the library's flaws, within what it can do, only counters are lost
MView == <<Pattern, Counts>>
BView == <<Pattern, Buffers>>
=============================================================================
