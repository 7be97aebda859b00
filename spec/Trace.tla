-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of a recorded execution (one JSON event per line, written by *)
(* harness/driver.c) against Aitisa.tla.  One state per line.  An event    *)
(* whose outcome violates an obligation in Aspects is reported, and the    *)
(* rest of its segment passed over; violations of other obligations are    *)
(* the business of other checks, and the state follows the observation.    *)
(***************************************************************************)
EXTENDS Parts, Json, IOUtils, TLC

\* Aspects (Aitisa): the obligations to report
CONSTANTS Scope      \* "all" calls, those that "failed", or under a "fault"

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          skip    \* passing over the rest of a segment

tvars == <<S, own, kind, memo, parts, l, skip>>
LineView == l

e == Events[l]

TInit == AInit /\ parts = NoFun /\ l = 1 /\ skip = FALSE

More == l <= Len(Events)
Advance == l' = l + 1

\* a segment starts from scratch
Segment ==
  /\ More /\ e.op = "seg"
  /\ S' = NoFun /\ own' = NoFun /\ parts' = NoFun /\ kind' = e.kind /\ UNCHANGED memo
  /\ skip' = FALSE
  /\ Advance

Skipped ==
  /\ More /\ skip /\ e.op # "seg"
  /\ UNCHANGED <<avars, parts, skip>>
  /\ Advance

\* the process died or hung: no call may do that
Crash ==
  /\ More /\ ~skip /\ e.op = "crash"
  /\ PrintT(<<"REJECT", l, "crash", {"crash"}>>)
  /\ skip' = TRUE
  /\ UNCHANGED <<avars, parts>>
  /\ Advance

Install ==
  /\ More /\ ~skip /\ e.op = "alloc"
  /\ UNCHANGED <<avars, parts, skip>>
  /\ Advance

InScope == \/ Scope = "all"
           \/ Scope = "failed" /\ e.st # SUCCESS
           \/ Scope = "fault" /\ e.fired = 1

\* after a wrong result the segment cannot be followed any further
Lost == {"status", "meta", "data"}

Follow(Wrongs(_), Action(_)) ==
  LET w == Wrongs(e)
      mine == w \cap (IF InScope THEN Aspects ELSE Aspects \cap {"memo"})
  IN IF mine = {} /\ w \cap Lost = {} THEN Action(e) /\ skip' = skip
     ELSE /\ mine # {} => PrintT(<<"REJECT", l, e.op, mine>>)
          /\ skip' = TRUE
          /\ UNCHANGED <<avars, parts>>

TensorStep(x) == TensorOp(x) /\ UNCHANGED parts
DestroyStep(x) == Destroy(x) /\ UNCHANGED parts
WriteStep(x) == Write(x) /\ UNCHANGED parts
ValueStep(x) == ValueOp(x) /\ UNCHANGED parts

TTensorOp == More /\ ~skip /\ IsTensorOp(e) /\ Follow(Wrong, TensorStep) /\ Advance
TDestroy == More /\ ~skip /\ IsDestroy(e) /\ Follow(Wrong, DestroyStep) /\ Advance
TWrite == More /\ ~skip /\ IsWrite(e) /\ Follow(Wrong, WriteStep) /\ Advance
TValueOp == More /\ ~skip /\ IsValueOp(e) /\ Follow(Wrong, ValueStep) /\ Advance
TPart == More /\ ~skip /\ IsPart(e) /\ Follow(WrongPart, PartOp) /\ Advance

TNext == Segment \/ Skipped \/ Crash \/ Install \/ TTensorOp \/ TDestroy \/ TWrite \/ TValueOp \/ TPart

TSpec == TInit /\ [][TNext]_tvars

\* the whole trace was read
Accepted == PrintT(<<"READ", TLCGet("stats").diameter - 1, Len(Events)>>)

\* while every obligation about memory is being checked, the books balance
Consistent == ("ledger" \in Aspects /\ Scope = "all" /\ ~skip) => AllConsistent
=============================================================================
