-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Histories of calls, drawn by TLC's simulator from the specification:    *)
(* every step picks an operation and arguments, among them ones that the   *)
(* specification rejects, and the tensors that are alive afterwards follow *)
(* from Errs and OutMeta.  Elements are left out (kind "h").  A behaviour  *)
(* of Depth calls is printed as JSON; the checks replay it into the        *)
(* library and validate what happened with Trace.tla.                      *)
(***************************************************************************)
EXTENDS Ops, TLC, Json

CONSTANTS Depth,      \* calls per history
          Slots,      \* variables of the caller
          MaxSize,    \* elements per tensor
          Ranks,      \* numbers of dimensions
          Ops0        \* operations to draw from

VARIABLES T,          \* slot -> tensor without elements
          script      \* the calls made

Some(s) == RandomElement(s)
Coin(n) == RandomElement(1..n) = 1         \* true once in n
Pick(seq) == seq[RandomElement(1..Len(seq))]

Base == [op |-> "", o |-> -1, p |-> -1, h |-> 0, dt |-> 0, dv |-> 0, di |-> 0, len |-> 0,
         m |-> "", hasx |-> 0, t |-> <<>>, dims |-> <<>>, a |-> <<>>, b |-> <<>>, c |-> <<>>,
         d |-> <<>>, n |-> <<>>, xd |-> <<0, 0, 0, 0, 0, 0>>, rate |-> "", x |-> <<>>, fails |-> 0]

Alive == DOMAIN T
Free == (0..(Slots - 1)) \ Alive
LowFree == CHOOSE s \in Free : \A u \in Free : s <= u

RandDims ==
  LET n == Some(Ranks)
  IN TLCEval([k \in 1..n |-> Pick(<<1, 1, 2, 2, 3, 4>>)])

\* doubles used as rates, epsilons and fill values, by name and limbs
Reals == << [s |-> "0.0", l |-> <<0, 0, 0, 0, 0, 0>>],
            [s |-> "1.0", l |-> <<0, 0, 0, 0, 1023 * 16 - 4096 * 3, 3>>],
            [s |-> "0.5", l |-> <<0, 0, 0, 0, 1022 * 16 - 4096 * 3, 3>>],
            [s |-> "2.0", l |-> <<0, 0, 0, 0, 0, 4>>],
            [s |-> "-1.0", l |-> <<0, 0, 0, 0, 1023 * 16 - 4096 * 3, 11>>] >>

T1(s) == T[s].dims
Make(op, s) == [Base EXCEPT !.op = op, !.t = s]

RandSlice(s) ==
  LET d == T1(s)
      b == TLCEval([k \in 1..Len(d) |-> IF d[k] = 0 THEN 0 ELSE IF Coin(25) THEN Some({-1, d[k]}) ELSE Some(0..(d[k] - 1))])
      z == TLCEval([k \in 1..Len(d) |-> LET m == MaxI(0, d[k] - b[k])
                                IN IF Coin(25) THEN Some({-1, m + 1, BigMark - 1}) ELSE Some(0..m)])
      st == TLCEval([k \in 1..Len(d) |-> IF Coin(25) THEN 0 ELSE Pick(<<1, 1, 2, 3>>)])
  IN [Make("slice", <<s>>) EXCEPT !.a = b, !.b = z, !.c = st]

\* another shape with as many elements (or not)
RandReshape(s) ==
  LET n == Prod(T1(s))
      f == Some({k \in 1..MaxI(1, n) : n % k = 0})
      d == Pick(<< <<n>>, <<f, n \div f>>, <<1, n>>, <<f, 1, n \div f>>, <<n, 2>>, T1(s) >>)
  IN [Make("reshape", <<s>>) EXCEPT !.dims = d]

RandSqueeze(s) ==
  LET n == Len(T1(s))
      k == Some(0..MinI(n, 3))
      lo == IF Coin(10) THEN -1 ELSE 0
      hi == IF Coin(10) THEN n ELSE MaxI(0, n - 1)
  IN [Make("squeeze", <<s>>) EXCEPT !.a = [i \in 1..k |-> Some(lo..hi)], !.n = <<IF Coin(20) THEN -1 ELSE k>>]

Same(s) == {u \in Alive : T[u].dt = T[s].dt}
Twin(s) == {u \in Same(s) : T1(u) = T1(s)}
SameOr(s) == IF Coin(5) THEN Some(Alive) ELSE Some(Same(s))

\* kernel, stride, padding, dilation
RandWin(s) ==
  LET k == MaxI(0, Len(T1(s)) - 2)
      V(seq) == TLCEval([i \in 1..MaxI(k, 1) |-> Pick(seq)])
  IN [k |-> V(<<1, 2, 2, 3>>), s |-> V(<<1, 1, 2, 1, 1, 0>>), p |-> V(<<0, 0, 1>>), d |-> V(<<1, 1, 1, 2>>)]

\* a shape which goes together with an existing tensor in some operation
Partner(s) ==
  LET d == T1(s)
      n == Len(d)
      filter == <<Some(1..2), d[2]>> \o TLCEval([k \in 1..(n - 2) |-> Some(1..MinI(d[k + 2], 3))])
      w == Some(1..6)
  IN CASE n = 0 -> <<>>
       [] w = 1 /\ n >= 3 -> filter
       [] w = 2 /\ n >= 3 -> filter
       [] w = 3 /\ n >= 2 -> <<d[2]>>
       [] w = 4 -> <<d[n]>>
       [] w = 5 -> <<d[n], Some(1..3)>>
       [] OTHER -> d

Draw(op) ==
  LET s == Some(Alive)
      r == Pick(Reals)
  IN CASE op = "create" ->
            LET fit == Coin(2)
                d == TLCEval(IF fit THEN Partner(s) ELSE RandDims)
                t == TLCEval(IF fit THEN T[s].dt ELSE IF Coin(3) THEN Float ELSE Some(DTypes))
            IN [Base EXCEPT !.op = "create", !.dt = t, !.dims = d, !.dv = IF Coin(12) THEN CUDA ELSE CPU,
                            !.hasx = IF Coin(8) THEN 0 ELSE 1,
                            !.len = DSize(t) * (Prod(d) + IF Coin(8) THEN Some({-1, 1}) ELSE 0)]
       [] op = "full" -> [Base EXCEPT !.op = "full", !.dt = Some(DTypes), !.dims = RandDims,
                                      !.xd = r.l, !.rate = r.s]
       [] op = "slice" -> RandSlice(s)
       [] op = "reshape" -> RandReshape(s)
       [] op = "squeeze" -> RandSqueeze(s)
       [] op = "cast" -> [Make("cast", <<s>>) EXCEPT !.dt = IF Coin(10) THEN 77 ELSE Some(DTypes)]
       [] op \in BinaryOps -> Make(op, <<s, IF Coin(5) THEN Some(Alive) ELSE Some(Twin(s))>>)
       [] op \in {"matmul", "dot"} -> Make(op, <<s, SameOr(s)>>)
       [] op \in ConvOps ->
            LET fl == {u \in Alive : T[u].dt = Float /\ Len(T1(u)) >= 3
                                    /\ (op = "conv2d" => Len(T1(u)) = 4) /\ (op = "conv3d" => Len(T1(u)) = 5)}
                i == IF fl = {} \/ Coin(6) THEN s ELSE Some(fl)
                fits == {u \in fl : Len(T1(u)) = Len(T1(i)) /\ Len(T1(u)) > 2
                                    /\ Len(T1(i)) > 2 /\ T1(u)[2] = T1(i)[2]}
                f == IF fits = {} \/ Coin(6) THEN Some(Alive) ELSE Some(fits)
                w == RandWin(i)
            IN [Make(op, <<i, f>>) EXCEPT !.a = w.s, !.b = w.p, !.c = w.d, !.n = <<Pick(<<1, 1, 1, 2, 0>>)>>]
       [] op = "pooling" ->
            LET w == RandWin(s)
            IN [Make("pooling", <<s>>) EXCEPT !.m = Pick(<<"max", "avg", "max", "avg", "min">>),
                                              !.a = w.k, !.b = w.s, !.c = w.p, !.d = w.d]
       [] op \in {"sigmoid", "tanh"} ->
            LET fl == {u \in Alive : IsFloat(T[u].dt)}
            IN Make(op, <<IF fl = {} THEN s ELSE Some(fl)>>)
       [] op = "softmax" -> [Make("softmax", <<s>>) EXCEPT !.n = <<Some(-2..Len(T1(s)))>>]
       [] op = "dropout" -> [Make("dropout", <<s>>) EXCEPT !.xd = r.l, !.rate = r.s]
       [] op = "batch_norm" ->
            LET n == Len(T1(s))
                ax == IF n < 2 THEN 1 ELSE Some({1, n - 1})
                fits(v) == {u \in Same(v) : Len(T1(v)) \in 2..5 /\ T1(u) = <<T1(v)[2]>>}
                ok == {v \in Alive : fits(v) # {}}
                v == IF ok = {} \/ Coin(6) THEN s ELSE Some(ok)
                P == IF fits(v) = {} \/ Coin(8) THEN Alive ELSE fits(v)
            IN [Make(op, <<v, Some(P), Some(P), Some(P), Some(P)>>) EXCEPT !.n = <<IF v = s THEN ax ELSE 1>>, !.xd = r.l, !.rate = r.s]
       [] op = "setitem" -> [Make(op, <<s>>) EXCEPT !.n = <<Some(0..MaxI(0, Prod(T1(s)) - 1))>>, !.dt = T[s].dt]
       [] op = "poke" -> [Make(op, <<s>>) EXCEPT !.dt = T[s].dt, !.len = DSize(T[s].dt) * Prod(T1(s))]
       [] OTHER -> Make(op, <<s>>)

\* inputs on which the library's behaviour is not specified
Defined(e) ==
  /\ e.op \notin {"create", "full", "reshape", "squeeze", "cast", "inspect", "resolve", "destroy"} \cup BinaryOps
       => \A i \in 1..Len(e.t) : AllPos(T1(e.t[i]))
  /\ e.op \in {"setitem", "poke"} => Prod(T1(e.t[1])) > 0
  /\ e.op = "pooling" => (Len(T1(e.t[1])) \in 3..5 \/ Len(T1(e.t[1])) < 3)
  /\ e.op = "batch_norm" => \A i \in 1..Len(e.t) : T[e.t[i]].dv = CPU
  /\ e.op = "create" => e.len >= 0

Result(e) ==
  IF e.op \notin TensorOps \/ Errs(e, "h", T) # {} \/ MakesNothing(e, T) THEN <<>>
  ELSE <<OutMeta(e, T)>>

Fails(e) == e.op \in TensorOps /\ Errs(e, "h", T) # {}

\* the handle: a sentinel, NULL, or the variable of one of the operands
Handle(e) ==
  IF e.op \notin TensorOps THEN e
  ELSE IF e.t # <<>> /\ Cardinality(Free) > 1 /\ Coin(5)
  THEN [e EXCEPT !.h = 2, !.o = e.t[1], !.p = LowFree]
  ELSE [e EXCEPT !.h = Some({0, 1}), !.o = LowFree]

Record(r) == [dt |-> r.dt, dv |-> r.dv, di |-> r.di, dims |-> r.dims, data |-> <<>>]
Put(f, s, v) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN v ELSE f[x]]

Do(e) ==
  LET r == Result(e)
  IN /\ script' = Append(script, [e EXCEPT !.fails = IF Fails(e) THEN 1 ELSE 0])
     /\ T' = IF e.op = "destroy" THEN [x \in Alive \ {e.t[1]} |-> T[x]]
             ELSE IF r = <<>> THEN T
             ELSE IF e.h = 2 THEN Put(Put(T, e.p, T[e.o]), e.o, Record(r[1]))
             ELSE Put(T, e.o, Record(r[1]))

GInit == T = [x \in {} |-> 0] /\ script = <<>>

Small0(e) ==
  LET r == Result(e) IN r = <<>> \/ Prod(r[1].dims) <= MaxSize

\* TLC evaluates a definition again wherever it is used: every draw is bound
\* to a variable by a quantifier over one element
Drawn(op) == {d \in TLCEval({TLCEval(Draw(op)), TLCEval(Draw(op)), TLCEval(Draw(op)),
                             TLCEval(Draw(op)), TLCEval(Draw(op))}) : Defined(d)}
Choose1(ds) ==
  LET good == {d \in ds : ~Fails(d) /\ Small0(d)}
      ok == {d \in ds : Small0(d)}
  IN IF good # {} /\ ~Coin(4) THEN Some(good) ELSE IF ok # {} THEN Some(ok)
     ELSE Make("inspect", <<Some(Alive)>>)

First == [Base EXCEPT !.op = "full", !.dt = IF Coin(2) THEN Float ELSE Some(DTypes), !.dims = RandDims]

GNext ==
  /\ Len(script) < Depth
  /\ IF Cardinality(Alive) < 2
     THEN \E e \in {TLCEval(First)} : \E f \in {TLCEval(Handle(e))} : Do(f)
     ELSE \E op \in {IF Cardinality(Free) < 3 THEN "destroy" ELSE IF Coin(4) THEN "create" ELSE Some(Ops0)} :
          \E ds \in {TLCEval(Drawn(op))} :
          \E e \in {TLCEval(Choose1(ds))} :
          \E f \in {TLCEval(Handle(e))} : Do(f)

GSpec == GInit /\ [][GNext]_<<T, script>>

\* prints a finished history
Printed == Len(script) = Depth => PrintT("HISTORY " \o ToJson(script))
=============================================================================
