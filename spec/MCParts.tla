------------------------------- MODULE MCParts ------------------------------
(***************************************************************************)
(* A design of shapes and storages, judged by Parts.tla.  impl is what the *)
(* variables really hold: pointers (blocks, 0 for NULL); mem0 are the      *)
(* blocks there really are.  Every request for memory may be refused.      *)
(*                                                                         *)
(* Flaw: "none"; "keepdims" an unsupported layout leaves the dims behind;  *)
(* "nonull" destruction leaves the pointers; "early" the handle is set     *)
(* before the data are there; "share" shapes of one ndim share the visit   *)
(* order; "order" the first axis is visited first; "data" buffers handed   *)
(* over are not given back.                                                *)
(***************************************************************************)
EXTENDS Parts, TLC

CONSTANTS Flaw, Calls, NParts

VARIABLES impl, mem0, next, n, wrong

vars == <<avars, parts, impl, mem0, next, n, wrong>>

Base == [op |-> "", p |-> 0, dims |-> <<>>, n |-> <<0>>, dt |-> 0, dv |-> 0, di |-> 0, st |-> 0, ret |-> <<>>,
         mem |-> <<>>, chg |-> <<>>, al |-> <<>>, ac |-> 0, gd |-> 0, fired |-> 0, adopt |-> 0]

Init == /\ AInit /\ parts = NoFun /\ impl = NoFun /\ mem0 = {} /\ next = 1 /\ n = 0 /\ wrong = {}

\* the call e was made: judged, and the specification follows
Judge(e) ==
  /\ wrong' = WrongPart(e)
  /\ IF WrongPart(e) = {} THEN PartOp(e) ELSE UNCHANGED <<avars, parts>>
  /\ n' = n + 1

Is(k) == k \in DOMAIN impl
Gives(bs) == [i \in 1..Len(bs) |-> IF bs[i] \in mem0 THEN <<2, bs[i]>> ELSE <<4, 0>>]
\* a block given back twice in one call
Mem(bs) == LET g == SelectSeq(bs, LAMBDA b : b # 0) IN Gives(g)
Gone(bs) == {bs[i] : i \in 1..Len(bs)}

\* refuse: the request that is refused, 0 for none
MakeShape(k, dims, lay, refuse) ==
  LET w == Len(dims) # 0
      a == IF w THEN next ELSE 0
      sharing == Flaw = "share" /\ \E j \in DOMAIN impl : j < 200 /\ impl[j].live /\ Len(impl[j].dims) = Len(dims) /\ w
      b == IF ~w THEN 0 ELSE IF sharing
           THEN impl[CHOOSE j \in DOMAIN impl : j < 200 /\ impl[j].live /\ Len(impl[j].dims) = Len(dims)].b ELSE next + 1
      e0 == [Base EXCEPT !.op = "shape", !.p = k - 100, !.dims = dims, !.n = <<lay>>]
      got == CASE w /\ refuse = 1 -> <<<<3, 0>>>>
               [] lay # 0 -> (IF w THEN <<<<1, a>>>> ELSE <<>>)
                             \o (IF w /\ Flaw # "keepdims" THEN <<<<2, a>>>> ELSE <<>>)
               [] w /\ refuse = 2 -> <<<<1, a>>, <<3, 0>>, <<2, a>>>>
               [] OTHER -> (IF w THEN <<<<1, a>>>> ELSE <<>>) \o (IF w /\ ~sharing THEN <<<<1, b>>>> ELSE <<>>)
      fired == w /\ (refuse = 1 \/ (refuse = 2 /\ lay = 0))
      st == IF w /\ refuse = 1 THEN ALLOC_FAILED ELSE IF lay # 0 THEN NOT_SUPPORTED
            ELSE IF fired THEN ALLOC_FAILED ELSE SUCCESS
      order == [i \in 1..Len(dims) |-> IF Flaw = "order" THEN i - 1 ELSE Len(dims) - i]
      e == [e0 EXCEPT !.st = st, !.mem = got, !.fired = IF fired THEN 1 ELSE 0,
                      !.ret = IF st = SUCCESS THEN <<Len(dims), 0>> \o dims \o order ELSE <<>>]
  IN /\ Judge(e)
     /\ impl' = IF st = SUCCESS THEN With(impl, k, [live |-> TRUE, dims |-> dims, a |-> a, b |-> b]) ELSE Without(impl, k)
     /\ mem0' = mem0 \cup (IF st = SUCCESS THEN {a, b} \ {0} ELSE {})
     /\ next' = next + 2

Unshape(k) ==
  LET x == impl[k]
      bs == <<x.a, x.b>>
      e == [Base EXCEPT !.op = "unshape", !.p = k - 100, !.mem = Mem(bs),
                        !.ret = IF Flaw = "nonull" THEN <<IF x.a = 0 THEN 1 ELSE 0, 1>> ELSE <<1, 1>>]
  IN /\ Judge(e)
     /\ impl' = With(impl, k, [live |-> FALSE, dims |-> <<>>, a |-> IF Flaw = "nonull" THEN x.a ELSE 0, b |-> 0])
     /\ mem0' = mem0 \ Gone(bs) /\ UNCHANGED next

MakeStorage(k, given, refuse) ==
  LET h == next
      d == next + 1
      st == IF refuse = 1 \/ (refuse = 2 /\ ~given) THEN ALLOC_FAILED ELSE SUCCESS
      got == CASE refuse = 1 -> <<<<3, 0>>>>
               [] refuse = 2 /\ ~given -> <<<<1, h>>, <<3, 0>>, <<2, h>>>>
               [] OTHER -> <<<<1, h>>>> \o (IF given THEN <<>> ELSE <<<<1, d>>>>)
      e == [Base EXCEPT !.op = "storage", !.p = k - 200, !.n = <<1>>, !.st = st, !.mem = got,
                        !.fired = IF st = SUCCESS THEN 0 ELSE 1, !.adopt = IF given THEN d ELSE 0,
                        !.ret = IF st = SUCCESS THEN <<1, 0, 1, 0, 0, 1, 1>>
                                ELSE <<IF Flaw = "early" /\ refuse = 2 THEN 1 ELSE 0>>]
  IN /\ Judge(e)
     /\ impl' = IF st = SUCCESS THEN With(impl, k, [live |-> TRUE, a |-> h, b |-> d, given |-> given]) ELSE Without(impl, k)
     /\ mem0' = mem0 \cup (IF st = SUCCESS THEN {h, d} ELSE {})
     /\ next' = next + 2

Unstorage(k, take) ==
  LET x == impl[k]
      t == IF take /\ x.live THEN x.b ELSE 0
      bs == <<IF t # 0 \/ (Flaw = "data" /\ x.live /\ x.given) THEN 0 ELSE x.b, x.a>>
      e == [Base EXCEPT !.op = "unstorage", !.p = k - 200, !.mem = Mem(bs), !.ret = <<1, t>>]
  IN /\ Judge(e)
     /\ impl' = With(impl, k, [live |-> FALSE, a |-> 0, b |-> 0, given |-> FALSE])
     /\ mem0' = mem0 \ (Gone(bs) \cup {t}) /\ UNCHANGED next

Next ==
  /\ n < Calls /\ wrong = {}
  /\ \/ \E k \in 101..(100 + NParts) :
          \/ /\ (Is(k) => ~impl[k].live)
             /\ \E nd \in 0..2, lay \in {0, 1}, r \in 0..2 : MakeShape(k, [i \in 1..nd |-> 3 * i], lay, r)
          \/ Is(k) /\ Unshape(k)
     \/ \E k \in 201..(200 + NParts) :
          \/ (Is(k) => ~impl[k].live) /\ \E g \in BOOLEAN, r \in 0..2 : MakeStorage(k, g, r)
          \/ Is(k) /\ \E t \in BOOLEAN : Unstorage(k, t)

Spec == Init /\ [][Next]_vars

Fine == wrong = {}
\* the books are what is so
Books == wrong = {} => AllConsistent /\ DOMAIN own = mem0
         /\ \A k \in DOMAIN impl : Owned(own, k) = {impl[k].a, impl[k].b} \ {0}
=============================================================================
