-------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* Calls of the library and what becomes of memory, with requests refused  *)
(* at any point.  A call which makes a tensor asks for Steps blocks (of    *)
(* which the last Scratch are working memory it gives back before it       *)
(* succeeds); when a request is refused it gives back what it has and      *)
(* fails.  destroy gives back a tensor's blocks.                           *)
(*                                                                         *)
(* Flaw: "none"; "forget" the block before the refused one is not given    *)
(* back; "keep" working memory stays; "twice" a block is given back twice; *)
(* "input" a block of another tensor is given back; "half" destroy forgets *)
(* a block.                                                                *)
(*                                                                         *)
(* Judged: a call is accepted by Heap.tla exactly when memory is where it  *)
(* should be, and the library without flaws is always accepted.            *)
(***************************************************************************)
EXTENDS Heap, TLC

CONSTANTS Slots, Steps, Scratch, Calls, Flaw

VARIABLES S,       \* slots in use -> their blocks
          own,     \* Heap.tla's books
          mem,     \* memory of the call that is running
          slot,    \* its slot, 0 between calls
          have,    \* blocks it holds
          fate,    \* "run", "fail", "done", "destroy"
          next,    \* next block
          verdict, \* what Heap.tla says of the last call
          n

vars == <<S, own, mem, slot, have, fate, next, verdict, n>>
Fun0 == [x \in {} |-> 0]

Init == S = Fun0 /\ own = Fun0 /\ mem = <<>> /\ slot = 0 /\ have = <<>> /\ fate = "done" /\ next = 1
        /\ verdict = TRUE /\ n = 0

Call(s) ==
  /\ slot = 0 /\ n < Calls /\ verdict
  /\ slot' = s /\ mem' = <<>> /\ have' = <<>> /\ n' = n + 1
  /\ fate' = IF s \in DOMAIN S THEN "destroy" ELSE "run"
  /\ UNCHANGED <<S, own, next, verdict>>

Obtain ==
  /\ fate = "run" /\ Len(have) < Steps
  /\ have' = Append(have, next) /\ mem' = Append(mem, <<1, next>>) /\ next' = next + 1
  /\ UNCHANGED <<S, own, slot, fate, verdict, n>>
Refuse ==
  /\ fate = "run" /\ Len(have) < Steps
  /\ mem' = Append(mem, <<3, 0>>) /\ fate' = "fail"
  /\ have' = IF Flaw = "forget" /\ have # <<>> THEN Front(have) ELSE have
  /\ UNCHANGED <<S, own, slot, next, verdict, n>>
\* successful so far: working memory goes back
Finish ==
  /\ fate = "run" /\ Len(have) = Steps
  /\ LET back == IF Flaw = "keep" THEN <<>> ELSE SubSeq(have, Steps - Scratch + 1, Steps)
         more == CASE Flaw = "twice" /\ back # <<>> -> <<back[1]>>
                   [] Flaw = "input" /\ DOMAIN own # {} -> <<CHOOSE b \in DOMAIN own : TRUE>>
                   [] OTHER -> <<>>
         m == mem \o [i \in 1..Len(back) |-> <<2, back[i]>>] \o [i \in 1..Len(more) |-> <<2, more[i]>>]
         h == HRun(own, m)
     IN /\ verdict' = KeepsTensor(h)
        /\ S' = [x \in DOMAIN S \cup {slot} |-> IF x = slot THEN {have[i] : i \in 1..(Steps - Scratch)} ELSE S[x]]
        /\ own' = Give(Drop(own, h.freed), h.tmp, slot)
        /\ mem' = m
  /\ fate' = "done" /\ slot' = 0 /\ UNCHANGED <<have, next, n>>
Undo ==
  /\ fate = "fail"
  /\ LET m == mem \o [i \in 1..Len(have) |-> <<2, have[i]>>]
         h == HRun(own, m)
     IN verdict' = KeepsNothing(h) /\ mem' = m /\ own' = Drop(own, h.freed)
  /\ fate' = "done" /\ slot' = 0 /\ UNCHANGED <<S, have, next, n>>
Destroy ==
  /\ fate = "destroy"
  /\ LET bs == SetToSeq(IF Flaw = "half" THEN S[slot] \ {CHOOSE b \in S[slot] : TRUE} ELSE S[slot])
         m == [i \in 1..Len(bs) |-> <<2, bs[i]>>]
         h == HRun(own, m)
     IN verdict' = ReleasesTensor(h, slot) /\ mem' = m
        /\ own' = Drop(own, Owned(own, slot))
  /\ S' = [x \in DOMAIN S \ {slot} |-> S[x]]
  /\ fate' = "done" /\ slot' = 0 /\ UNCHANGED <<have, next, n>>

Next == (\E s \in Slots : Call(s)) \/ Obtain \/ Refuse \/ Finish \/ Undo \/ Destroy
Spec == Init /\ [][Next]_vars

\* between calls the books say what is so
Balanced ==
  (slot = 0 /\ verdict) =>
    /\ DOMAIN own = UNION {S[s] : s \in DOMAIN S}
    /\ \A s \in DOMAIN S : Owned(own, s) = S[s]
\* memory not accounted for by a tensor is never accepted
Live == {mem[i][2] : i \in {j \in 1..Len(mem) : mem[j][1] = 1}} \ {mem[i][2] : i \in {j \in 1..Len(mem) : mem[j][1] = 2}}
Sound == verdict
=============================================================================
