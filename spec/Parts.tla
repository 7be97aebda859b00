-------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* Shapes and storages on their own (core/shape.h, core/storage.h): the    *)
(* parts a tensor is made of, as calls of the library.                     *)
(*                                                                         *)
(* parts maps 100 + k to shape k and 200 + k to storage k, variables of    *)
(* the caller.  alive says whether it holds anything; one that was         *)
(* destroyed holds nothing and may be destroyed again.  Blocks belong to   *)
(* parts as they do to tensors (own, Heap.tla).                            *)
(***************************************************************************)
EXTENDS Aitisa

VARIABLE parts

LAYOUT_DENSE == 0

ShapeOps == {"shape", "unshape", "lookshape"}
StorageOps == {"storage", "unstorage", "lookstorage"}
PartOps == ShapeOps \cup StorageOps

Who(e) == IF e.op \in ShapeOps THEN 100 + e.p ELSE 200 + e.p
Part(e) == parts[Who(e)]
Holds(ps, k) == k \in DOMAIN ps /\ ps[k].alive

\* a dense layout visits the last axis first
Min2Maj(n) == [k \in 1..n |-> n - k]
ShapeReport(dims) == <<Len(dims), LAYOUT_DENSE>> \o dims \o Min2Maj(Len(dims))
\* type, its size, device, number of elements; and its data are those handed
\* over, or memory for all of them
StorageReport(s) == <<1, s.dt, DSize(s.dt), s.dv, s.di, s.size, 1>>

Made(e) == IF e.op = "shape" THEN [alive |-> TRUE, dims |-> e.dims]
           ELSE [alive |-> TRUE, dt |-> e.dt, dv |-> e.dv, di |-> e.di, size |-> e.n[1]]
Report(e, x) == IF e.op \in ShapeOps THEN ShapeReport(x.dims) ELSE StorageReport(x)

PartErrs(e) == IF e.op = "shape" /\ e.n[1] # LAYOUT_DENSE THEN {NOT_SUPPORTED} ELSE {}

WrongMake(e) ==
  LET h == HRun(own, e.mem)
      errs == PartErrs(e)
      refused == e.fired = 1 /\ e.st = ALLOC_FAILED
      needs == IF e.op = "shape" THEN e.dims # <<>> ELSE TRUE
  IN Common(e, h)
     \cup If(IF errs = {} THEN e.st # SUCCESS /\ ~refused ELSE e.st \notin errs /\ ~refused, "status")
     \cup If(e.fired = 1 /\ e.st \notin {SUCCESS, ALLOC_FAILED} \cup errs, "fault")
     \cup If(e.st = SUCCESS /\ e.ret # Report(e, Made(e)), "data")
     \cup If(e.op = "storage" /\ e.st # SUCCESS /\ e.ret # <<0>>, "handle")
     \cup If(~(IF e.st = SUCCESS THEN ~h.bad /\ h.freed = {} /\ (needs => h.tmp # {})
               ELSE KeepsNothing(h)), "ledger")
Make(e) ==
  LET h == HRun(own, e.mem)
      ok == e.st = SUCCESS
      blocks == h.tmp \cup (IF e.adopt # 0 THEN {e.adopt} ELSE {})
      k == Who(e)
  IN /\ parts' = IF ok THEN With(parts, k, Made(e)) ELSE With(parts, k, [alive |-> FALSE])
     /\ own' = IF ok THEN Give(Drop(own, h.freed), blocks, k) ELSE Drop(own, h.freed)

WrongLook(e) ==
  LET h == HRun(own, e.mem)
  IN Common(e, h) \cup If(e.ret # Report(e, Part(e)), "data")

\* e.p = -1: there is nothing to destroy.  For a storage, e.ret[2] is the
\* block of data its user took out before, 0 for none
Taken(e) == IF e.op = "unstorage" /\ e.ret[2] # 0 THEN {e.ret[2]} ELSE {}
WrongUnmake(e) ==
  LET h == HRun(own, e.mem)
      mine == IF e.p < 0 THEN {} ELSE Owned(own, Who(e)) \ Taken(e)
  IN Common(e, h)
     \cup If(e.st # SUCCESS, "status")
     \cup If(e.ret[1] # 1 \/ (e.op = "unshape" /\ e.ret[2] # 1), "handle")
     \cup If(h.bad \/ h.tmp # {} \/ h.freed # mine, "ledger")
Unmake(e) ==
  /\ parts' = IF e.p < 0 THEN parts ELSE With(parts, Who(e), [alive |-> FALSE])
  /\ own' = IF e.p < 0 THEN own ELSE Drop(own, Owned(own, Who(e)))

IsPart(e) == e.op \in PartOps
WrongPart(e) ==
  CASE e.op \in {"shape", "storage"} -> WrongMake(e)
    [] e.op \in {"lookshape", "lookstorage"} -> WrongLook(e)
    [] OTHER -> WrongUnmake(e)
PartOp(e) ==
  /\ CASE e.op \in {"shape", "storage"} -> Make(e)
       [] e.op \in {"lookshape", "lookstorage"} -> UNCHANGED <<parts, own>>
       [] OTHER -> Unmake(e)
  /\ UNCHANGED <<S, kind, memo>>

\* every block belongs to a tensor or a part that is alive
AllConsistent ==
  /\ \A b \in DOMAIN own : own[b] \in DOMAIN S \/ Holds(parts, own[b])
  /\ \A s \in DOMAIN S : Owned(own, s) # {}
=============================================================================
