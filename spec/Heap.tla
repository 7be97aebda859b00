-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Ownership of memory blocks.  own maps every live block to the slot of   *)
(* the tensor it belongs to.  The allocations and releases made during one *)
(* call, in order, are a sequence of <<kind, block>>:                      *)
(*   1 obtained, 2 given back, 3 request refused, 4 release of something   *)
(*   that is not live, 5 / 6 obtained / given back past the user's own     *)
(*   allocator.                                                            *)
(* While the call runs, tmp are the blocks obtained and not given back,    *)
(* freed the tensors' blocks given back.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

HStart(own) == [own |-> own, tmp |-> {}, freed |-> {}, bad |-> FALSE, raw |-> FALSE]

HAlloc(h, b) ==
  IF b \in h.tmp \/ (b \in DOMAIN h.own /\ b \notin h.freed)
  THEN [h EXCEPT !.bad = TRUE] ELSE [h EXCEPT !.tmp = @ \cup {b}]
HFree(h, b) ==
  IF b \in h.tmp THEN [h EXCEPT !.tmp = @ \ {b}]
  ELSE IF b \in DOMAIN h.own /\ b \notin h.freed THEN [h EXCEPT !.freed = @ \cup {b}]
  ELSE [h EXCEPT !.bad = TRUE]
HStep(h, m) ==
  CASE m[1] = 1 -> HAlloc(h, m[2])
    [] m[1] = 2 -> HFree(h, m[2])
    [] m[1] = 3 -> h
    [] m[1] = 4 -> [h EXCEPT !.bad = TRUE]
    [] m[1] = 5 -> [HAlloc(h, m[2]) EXCEPT !.raw = TRUE]
    [] m[1] = 6 -> [HFree(h, m[2]) EXCEPT !.raw = TRUE]
HRun(own, mem) == FoldLeft(HStep, HStart(own), mem)

Owned(own, s) == {b \in DOMAIN own : own[b] = s}

\* what a call may leave behind: nothing, or the blocks of its new tensor
KeepsNothing(h) == ~h.bad /\ h.tmp = {} /\ h.freed = {}
KeepsTensor(h) == ~h.bad /\ h.tmp # {} /\ h.freed = {}
ReleasesTensor(h, s) == ~h.bad /\ h.tmp = {} /\ h.freed = Owned(h.own, s)

\* ownership afterwards
Give(own, bs, s) == [b \in DOMAIN own \cup bs |-> IF b \in bs THEN s ELSE own[b]]
Drop(own, bs) == [b \in DOMAIN own \ bs |-> own[b]]
Rename(own, s, s2) == [b \in DOMAIN own |-> IF own[b] = s THEN s2 ELSE own[b]]
=============================================================================
