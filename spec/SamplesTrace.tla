---------------------------- MODULE SamplesTrace ----------------------------
(***************************************************************************)
(* Validation of a recorded execution of auto_test (harness/auto_driver)   *)
(* against Samples.tla, and of its tables and generators.                  *)
(*                                                                         *)
(* bb maps a bundle to the buffers in it, as first reported: for every     *)
(* operand <<dims, data>>, numbers of blocks, 0 for none.  live are the    *)
(* blocks obtained and not given back.  After every command:               *)
(*   "reports"  every holder reports what it was last given                *)
(*   "moved"    a holder that was moved from has no buffers                *)
(*   "share"    holders of one bundle have the same buffers, those of      *)
(*              different bundles different ones; buffers handed over are  *)
(*              the ones held                                              *)
(*   "valid"    the buffers of every bundle in use are there               *)
(*   "freed"    those of bundles no longer in use are not, nothing is      *)
(*              given back twice, and when no object is left no memory is  *)
(* Strict: the library is known to lose the counter of a result, and that  *)
(* of an input which is replaced (known-findings.txt); where this is not   *)
(* the question, lost counts these, and no more than them may be left.     *)
(***************************************************************************)
EXTENDS Samples, Ieee, Json, IOUtils, TLC

CONSTANT Strict

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES objs, next, bb, live, lost, l, skip

vars == <<objs, next, bb, live, lost, l, skip>>
LineView == l

e == Events[l]

Init == objs = NoObjs /\ next = 1 /\ bb = NoObjs /\ live = {} /\ lost = 0 /\ l = 1 /\ skip = FALSE

Reset == objs' = NoObjs /\ next' = 1 /\ bb' = NoObjs /\ live' = {} /\ lost' = 0
Segment ==
  /\ e.op = "seg"
  /\ Reset /\ skip' = FALSE
Skipped ==
  /\ skip /\ e.op # "seg"
  /\ UNCHANGED <<objs, next, bb, live, lost, skip>>
Crash ==
  /\ ~skip /\ e.op = "crash"
  /\ PrintT(<<"REJECT", l, "crash", {"crash"}>>)
  /\ skip' = TRUE /\ UNCHANGED <<objs, next, bb, live, lost>>

-----------------------------------------------------------------------------
(* The ledger of one command.                                               *)

Ledger(m0, mem) ==
  FoldLeft(LAMBDA h, m :
             CASE m[1] = 1 -> [h EXCEPT !.live = @ \cup {m[2]}]
               [] m[1] = 2 -> IF m[2] \in h.live THEN [h EXCEPT !.live = @ \ {m[2]}] ELSE [h EXCEPT !.bad = TRUE]
               [] OTHER -> [h EXCEPT !.bad = TRUE],
           [live |-> m0, bad |-> FALSE], mem)

Rep(x) == (CHOOSE r \in {e.rep[i] : i \in 1..Len(e.rep)} : r.s = x[1]).hs[x[2]]
Blocks(rp) == [j \in 1..Len(rp) |-> <<rp[j].db, rp[j].xb>>]
Flat(b) == {b[j][1] : j \in 1..Len(b)} \cup {b[j][2] : j \in 1..Len(b)}

If(c, s) == IF c THEN {s} ELSE {}

\* after, and the blocks of every bundle: those known, and those of new ones
\* (or of one that was just given data) as reported
Known(after) ==
  LET hs == Holders(after)
      touched(g) == g \notin DOMAIN bb \/ (e.op = "setdata" /\ g = H(after, <<e.o, 1>>).g)
  IN [g \in Used(after) |->
        IF touched(g) THEN Blocks(Rep(CHOOSE x \in hs : H(after, x).g = g)) ELSE bb[g]]

\* buffers handed over: e.given[j] = <<dims, data>>, 0 where none was
GivenOk(after) ==
  LET Same(given, have) == given = 0 \/ given = have
  IN CASE e.op = "make" ->
            LET rp == Rep(<<e.o, 1>>)
            IN \A j \in 1..Len(rp) : Same(e.given[j][1], rp[j].db) /\ Same(e.given[j][2], rp[j].xb)
       [] e.op = "setdata" -> Same(e.given[1][2], Rep(<<e.o, 1>>)[e.i].xb)
       [] OTHER -> TRUE

\* counters lost by this command
Losing(after) ==
  LET went == Used(objs) \ Used(after)
      IsResult(g) == \E x \in Holders(objs) : H(objs, x).g = g /\ HasResult(objs[x[1]].cls) /\ x[2] = ResultAt(objs[x[1]].cls)
  IN CASE e.op = "destroy" -> Cardinality({g \in went : IsResult(g)})
       [] e.op \in {"assign", "setin"} -> Cardinality({g \in went : ~IsResult(g)})
       [] OTHER -> 0

Wrong(after, kb, led) ==
  LET hs == Holders(after)
      inUse == Used(after)
      gone == DOMAIN bb \ inUse
      Fl(g) == Flat(kb[g]) \ {0}
      \* what a bundle keeps when it is given data
      Grown(g) == g \in DOMAIN bb => \A j \in 1..Len(bb[g]) : \A k \in {1, 2} : bb[g][j][k] \in {0, kb[g][j][k]}
  IN If(\E x \in hs : H(after, x).g # 0
            /\ [j \in 1..Len(Rep(x)) |-> PartOf(Rep(x)[j])] # H(after, x).parts, "reports")
     \cup If(\E x \in hs : H(after, x).g = 0 /\ Flat(Blocks(Rep(x))) # {0}, "moved")
     \cup If(\/ \E x \in hs : H(after, x).g # 0 /\ Blocks(Rep(x)) # kb[H(after, x).g]
             \/ \E g1, g2 \in inUse : g1 # g2 /\ Fl(g1) \cap Fl(g2) # {}
             \/ \E g \in inUse : ~Grown(g)
             \/ ~GivenOk(after), "share")
     \cup If(\E g \in inUse : ~(Fl(g) \subseteq led.live), "valid")
     \cup If(led.bad \/ (\E g \in gone : (Flat(bb[g]) \ {0}) \cap led.live # {})
             \/ (DOMAIN after = {} /\ Cardinality(led.live) > (IF Strict THEN 0 ELSE lost + Losing(after))), "freed")

Ops == {"new", "make", "copy", "move", "wrap", "assign", "setin", "setres", "setresof", "setdata", "dev", "destroy"}

Command ==
  /\ ~skip /\ e.op \in Ops
  /\ \E after \in {TLCEval(After(e, objs, next))} :
     \E kb \in {TLCEval(Known(after))} :
     \E led \in {TLCEval(Ledger(live, e.mem))} :
     \E w \in {TLCEval(Wrong(after, kb, led))} :
        IF w = {}
        THEN /\ objs' = after /\ next' = next + 2 /\ bb' = kb /\ live' = led.live
             /\ lost' = lost + Losing(after)
             /\ skip' = skip
        ELSE /\ PrintT(<<"REJECT", l, e.op, w>>)
             /\ skip' = TRUE /\ UNCHANGED <<objs, next, bb, live, lost>>

-----------------------------------------------------------------------------
(* Tables and generators.                                                   *)

TablesOk ==
  e.ret = [k \in 1..46 |->
             IF k <= 40
             THEN LET i == (k - 1) \div 4
                  IN IF (k - 1) % 4 \in {0, 2} THEN i ELSE DSize(i)
             ELSE IF (k - 41) % 3 = 1 THEN 0 ELSE (k - 41) \div 3]

\* i / 10, to within what adding and multiplying rounded tenths costs
NaturalOk(dt, i, r) ==
  IF IsFloat(dt)
  THEN LET f == FloatOf(dt, r)
           off == DAbs(DSub(DMul(FDyadic(f), DofInt(10)), DofInt(i)))
       IN f.c = "fin" /\ DLe(off, DMul(DofInt(i + 1), DPow2(2 - Prec(dt))))
  ELSE IntOf(dt, r) = ZWrap(dt, ZofInt(i))
RandomOk(dt, r) ==
  IF IsFloat(dt) THEN FloatOf(dt, r).c = "fin"
  ELSE LET z == IntOf(dt, r) IN ~z.neg /\ NCmp(z.m, NofInt(10)) <= 0

\* e.ret = <<written outside, written after the last whole element, differs
\* from call to call>>
FilledOk ==
  /\ e.ret = <<0, 0, 1>>
  /\ Len(e.data) = e.len \div DSize(e.dt)
  /\ \A i \in 1..Len(e.data) :
       IF e.op = "natural" THEN NaturalOk(e.dt, i, e.data[i]) ELSE RandomOk(e.dt, e.data[i])

Value ==
  /\ ~skip /\ e.op \in {"tables", "natural", "random"}
  /\ IF IF e.op = "tables" THEN TablesOk ELSE FilledOk THEN TRUE ELSE PrintT(<<"REJECT", l, e.op, {"data"}>>)
  /\ UNCHANGED <<objs, next, bb, live, lost, skip>>

Next == l <= Len(Events) /\ l' = l + 1 /\ (Segment \/ Skipped \/ Crash \/ Command \/ Value)
TSpec == Init /\ [][Next]_vars

Accepted == PrintT(<<"READ", TLCGet("stats").diameter - 1, Len(Events)>>)
=============================================================================
