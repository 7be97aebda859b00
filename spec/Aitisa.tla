------------------------------- MODULE Aitisa -------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* State: the tensors that are alive, by slot (a variable of the caller),  *)
(* the owner of every memory block, and which allocator is installed.      *)
(* A transition is one call e, a record with its arguments and its         *)
(* outcome: status e.st, whether the output handle changed (e.oh), the new *)
(* tensor e.out (when e.has = 1), numbers e.ret, the memory it used e.mem, *)
(* the other tensors it changed (e.chg), tensors the new one shares memory *)
(* with (e.al), whether it wrote to the caller's arrays (e.ac) or next to  *)
(* them (e.gd), and whether an allocation was refused (e.fired).           *)
(*                                                                         *)
(* Wrong(e) names the obligations the outcome violates:                    *)
(*   "status"  success or error, and which                                 *)
(*   "meta"    shape, type, device, size of the result                     *)
(*   "data"    its elements, or the numbers returned                       *)
(*   "handle"  output handle changed exactly on success                    *)
(*   "frame"   no other tensor changed                                     *)
(*   "alias"   the result shares memory with nothing                       *)
(*   "args"    caller's arrays are only read, nothing written beyond them  *)
(*   "ledger"  blocks kept and given back                                  *)
(*   "raw"     memory obtained past the user's allocator                   *)
(*   "fault"   a refused allocation is reported                            *)
(*   "memo"    the same call on the same tensors gave another outcome      *)
(***************************************************************************)
EXTENDS Ops, Heap

CONSTANT Aspects   \* the obligations of interest: elements are only looked at
                   \* when "data" is among them

VARIABLES S,       \* slot -> tensor
          own,     \* block -> slot
          kind,    \* kind of elements, "s", "w" or "h"
          memo     \* key -> outcome of an earlier call

avars == <<S, own, kind, memo>>

NoFun == [x \in {} |-> 0]

AInit == S = NoFun /\ own = NoFun /\ kind = "s" /\ memo = NoFun

\* a function with one more (or changed) argument
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

TensorOf(o) == [dt |-> o.dt, dv |-> o.dv, di |-> o.di, dims |-> o.dims, data |-> o.data]

\* the elements of very large tensors are not recorded
Unlisted(o) == o.sz > 1048576 /\ o.data = <<>>
\* an operand with that many elements: what the result holds is not known
Blind(e) == LET in == In(e, S) IN \E i \in 1..Len(in) : in[i].data = <<>> /\ Size(in[i]) > 1048576

MetaOk(e, m) ==
  /\ e.out.dt = m.dt /\ e.out.ts = DSize(m.dt)
  /\ e.out.dv = m.dv /\ e.out.di = m.di /\ e.out.lay = 0
  /\ e.out.dims = m.dims /\ e.out.sz = Prod(m.dims)
  /\ Len(e.out.data) = e.out.sz \/ Unlisted(e.out)

Outcome(e) == [st |-> e.st, has |-> e.has, ret |-> e.ret,
               out |-> IF e.has = 1 THEN TensorOf(e.out) ELSE <<>>]
\* everything a call can depend on
Question(e) == [op |-> e.op, in |-> In(e, S), dt |-> e.dt, dv |-> e.dv, di |-> e.di, x |-> e.x,
                dims |-> e.dims, a |-> e.a, b |-> e.b, c |-> e.c, d |-> e.d, n |-> e.n,
                m |-> e.m, xd |-> e.xd, len |-> e.len, kind |-> kind]
MemoOk(e) ==
  (e.key # "" /\ e.fired = 0 /\ e.key \in DOMAIN memo)
    => (memo[e.key].q = Question(e) => memo[e.key].r = Outcome(e))
NewMemo(e) ==
  IF e.key # "" /\ e.fired = 0 /\ e.key \notin DOMAIN memo
  THEN With(memo, e.key, [q |-> Question(e), r |-> Outcome(e)]) ELSE memo

If(c, s) == IF c THEN {s} ELSE {}

Common(e, h) ==
  If(e.chg # <<>>, "frame") \cup If(e.al # <<>>, "alias")
  \cup If(e.ac # 0 \/ e.gd # 0, "args") \cup If(h.raw, "raw")

-----------------------------------------------------------------------------
(* Calls with an output handle.                                             *)

WrongTensorOp(e) ==
  LET h == HRun(own, e.mem)
      errs == Errs(e, kind, S)
      may == MayErrs(e, kind, S)
      none == MakesNothing(e, S)
      m == OutMeta(e, S)
      metaOk == MetaOk(e, m)
      good == e.st = SUCCESS /\ errs = {}
  IN Common(e, h)
     \cup If(IF errs = {} THEN e.st \notin {SUCCESS} \cup may /\ e.fired = 0
             ELSE e.st \notin errs /\ ~(e.fired = 1 /\ e.st = ALLOC_FAILED), "status")
     \cup If(e.fired = 1 /\ e.st \notin {SUCCESS, ALLOC_FAILED} \cup errs \cup may, "fault")
     \cup If(good /\ e.has = 1 /\ ~none /\ ~metaOk, "meta")
     \cup If(good /\ e.has = 1 /\ ~none /\ metaOk /\ ~Unlisted(e.out) /\ ~Blind(e)
            /\ "data" \in Aspects /\ ~DataOk(e, kind, S, e.out.data), "data")
     \cup If(good /\ e.op = "create" /\ e.hasx = 1 /\ e.same # 1, "data")
     \cup If(e.oh # (IF e.st = SUCCESS /\ ~(errs = {} /\ none) THEN 1 ELSE 0)
             \/ e.has # e.oh, "handle")
     \cup If(~(IF e.has = 1 THEN KeepsTensor(h) ELSE KeepsNothing(h)), "ledger")
     \cup If(e.op # "dropout" /\ ~MemoOk(e), "memo")

\* the state afterwards follows what was observed
TensorOp(e) ==
  LET h == HRun(own, e.mem)
      blocks == h.tmp \cup (IF e.adopt # 0 THEN {e.adopt} ELSE {})
      own1 == Drop(own, h.freed)
  IN /\ IF e.has = 1
        THEN IF e.h = 2
             THEN /\ S' = With(With(S, e.p, S[e.o]), e.o, TensorOf(e.out))
                  /\ own' = Give(Rename(own1, e.o, e.p), blocks, e.o)
             ELSE /\ S' = With(S, e.o, TensorOf(e.out))
                  /\ own' = Give(own1, blocks, e.o)
        ELSE S' = S /\ own' = own1
     /\ memo' = NewMemo(e)
     /\ UNCHANGED kind

-----------------------------------------------------------------------------
(* Destruction.                                                             *)

WrongDestroy(e) ==
  LET h == HRun(own, e.mem)
      s == e.t[1]
  IN Common(e, h)
     \cup If(e.st # SUCCESS, "status")
     \cup If(e.ret # <<1>>, "handle")
     \cup If(~ReleasesTensor(h, s), "ledger")
Destroy(e) ==
  /\ S' = Without(S, e.t[1])
  /\ own' = Drop(own, Owned(own, e.t[1]))
  /\ UNCHANGED <<kind, memo>>

-----------------------------------------------------------------------------
(* Writing: set_item, and writes of the caller through the data pointer.    *)

Written(e) ==
  LET t == S[e.t[1]]
  IN IF e.op = "poke" THEN e.x ELSE [t.data EXCEPT ![e.n[1] + 1] = e.x[1]]
WrongWrite(e) ==
  LET h == HRun(own, e.mem)
      t == S[e.t[1]]
      metaOk == MetaOk(e, t)
  IN Common(e, h)
     \cup If(~metaOk, "meta")
     \cup If(metaOk /\ e.out.data # Written(e), "data")
     \cup If(~KeepsNothing(h), "ledger")
Write(e) ==
  /\ S' = With(S, e.t[1], TensorOf(e.out))
  /\ UNCHANGED <<own, kind, memo>>

-----------------------------------------------------------------------------
(* Calls that only return numbers.                                          *)

WrongValue(e) ==
  LET h == HRun(own, e.mem)
  IN Common(e, h)
     \cup If("data" \in Aspects /\ ~ValueOk(e, kind, S), "data")
     \cup If(~KeepsNothing(h), "ledger")
     \cup If(e.op \notin {"typed", "castto", "dropstat"} /\ ~MemoOk(e), "memo")
ValueOp(e) == memo' = NewMemo(e) /\ UNCHANGED <<S, own, kind>>

-----------------------------------------------------------------------------

IsTensorOp(e) == e.op \in TensorOps
IsDestroy(e) == e.op = "destroy"
IsWrite(e) == e.op \in {"setitem", "poke"}
IsValueOp(e) == e.op \in ValueOps

Wrong(e) ==
  CASE IsTensorOp(e) -> WrongTensorOp(e)
    [] IsDestroy(e) -> WrongDestroy(e)
    [] IsWrite(e) -> WrongWrite(e)
    [] IsValueOp(e) -> WrongValue(e)

\* every block belongs to a tensor that is alive, and every tensor has one
HeapConsistent ==
  /\ \A b \in DOMAIN own : own[b] \in DOMAIN S
  /\ \A s \in DOMAIN S : Owned(own, s) # {}
TensorsWellFormed ==
  \A s \in DOMAIN S : AllNonNeg(S[s].dims)
                       /\ Len(S[s].data) \in {0, Prod(S[s].dims)}
=============================================================================
