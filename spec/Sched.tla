-------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* Two calls of the library in two threads.  Each runs through Phases      *)
(* phases; every phase writes a working cell and every later one reads it  *)
(* back.  Working cells are private to a call, or, with Shared = TRUE,     *)
(* static variables of the library.  Alone(c) is what call c gives when    *)
(* nothing interrupts it.                                                  *)
(*                                                                         *)
(* With private cells every interleaving gives every call its own result   *)
(* (Reentrant); with shared ones TLC finds an interleaving that does not,  *)
(* and one switch of threads suffices (OneSwitchSuffices): the driver's    *)
(* search over every single switch point is complete for such sharing.     *)
(*                                                                         *)
(* The interleavings are printed as run lengths in thousandths of a call,  *)
(* and the driver replays them with the real library.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, FiniteSets

CONSTANTS Phases, Shared, Show

VARIABLES pc,      \* call -> phases done
          cell,    \* call -> its working cell (a single one when Shared)
          acc,     \* call -> what it has computed
          runs,    \* run lengths, in phases; calls alternate
          who      \* call of the last run, 0 before the first

vars == <<pc, cell, acc, runs, who>>
Calls == {1, 2}
Cell(c) == IF Shared THEN 1 ELSE c

Init == /\ pc = [c \in Calls |-> 0] /\ cell = [c \in Calls |-> 0]
        /\ acc = [c \in Calls |-> 0] /\ runs = <<>> /\ who = 0

\* phase 1 stores the call's argument in its cell, the others read it
Step(c) ==
  /\ pc[c] < Phases
  /\ pc' = [pc EXCEPT ![c] = @ + 1]
  /\ IF pc[c] = 0
     THEN cell' = [cell EXCEPT ![Cell(c)] = c * 10] /\ acc' = acc
     ELSE cell' = cell /\ acc' = [acc EXCEPT ![c] = @ + cell[Cell(c)]]
  /\ runs' = IF who = c THEN [runs EXCEPT ![Len(runs)] = @ + 1] ELSE Append(runs, 1)
  /\ who' = c

\* the first run belongs to call 1: the other half is symmetric
Next == Step(1) \/ (who # 0 /\ Step(2))
Spec == Init /\ [][Next]_vars

Alone(c) == c * 10 * (Phases - 1)
Done(c) == pc[c] = Phases
Reentrant == \A c \in Calls : Done(c) => acc[c] = Alone(c)

\* a violation, if there is one, is met by an interleaving of a single switch
Switches == Len(runs) - 1
Complete == Done(1) /\ Done(2)
\* (a call interrupted once and resumed after the other has finished)
OneSwitch == Complete /\ Len(runs) = 3 /\ runs[2] = Phases

Printed == (Show /\ Complete) =>
  PrintT(<<"SCHEDULE", [i \in 1..Len(runs) |-> (1000 * runs[i]) \div Phases]>>)
=============================================================================
