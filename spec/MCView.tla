-------------------------------- MODULE MCView -------------------------------
(***************************************************************************)
(* Views: chains of slice, squeeze, reshape and duplicate.  The state is   *)
(* the shape od of a tensor whose elements are all different (element i is *)
(* i), and what a chain of calls has made of it: dims and, for every       *)
(* position, which element stands there (map).                             *)
(*                                                                         *)
(* Checked against definitions of their own: a slice lists the elements    *)
(* whose coordinates it selects, in the order of storage; squeeze drops    *)
(* axes of extent 1 only, reshape keeps the order; no chain repeats,       *)
(* invents or reorders elements; two slices in a row are one.              *)
(***************************************************************************)
EXTENDS Shapes

CONSTANTS MaxRank, MaxExt, MaxStride, Depth

VARIABLES od, dims, map, n

vars == <<od, dims, map, n>>

Tuples(k, s) == [1..k -> s]
ShapesUpTo(r, x) == UNION {Tuples(k, 1..x) : k \in 0..r}

Init == od \in ShapesUpTo(MaxRank, MaxExt) /\ dims = od /\ map = [i \in 1..Prod(od) |-> i] /\ n = 0

\* valid <<begin, size, stride>> of an axis
AxisArgs(x) == {a \in (0..(x - 1)) \X (0..x) \X (1..MaxStride) : a[1] + a[2] <= x}
RECURSIVE ArgsOf(_)
ArgsOf(d) == IF d = <<>> THEN {<<>>} ELSE {<<a>> \o rest : a \in AxisArgs(d[1]), rest \in ArgsOf(Tail(d))}
Bs(args) == [k \in DOMAIN args |-> args[k][1]]
Ss(args) == [k \in DOMAIN args |-> args[k][2]]
Sts(args) == [k \in DOMAIN args |-> args[k][3]]

\* positions a slice selects, by their coordinates
Selected(d, args) ==
  {i \in 1..Prod(d) :
     LET co == Coords(i - 1, d, Strides(d))
     IN \A k \in 1..Len(d) :
          LET a == args[k]
          IN IF a[2] = 0 THEN co[k] = a[1]
             ELSE co[k] \in {a[1] + j * a[3] : j \in 0..(a[2] - 1)} /\ co[k] < a[1] + a[2]}

Slice ==
  \E args \in ArgsOf(dims) :
    LET m == SliceMap(dims, Bs(args), Ss(args), Sts(args))
    IN /\ dims' = SliceDims(dims, Ss(args), Sts(args))
       /\ map' = [i \in 1..Len(m) |-> map[m[i]]]
\* every list of axes of length <= 2, also with repetitions
Squeeze ==
  \E k \in 0..MinI(2, Len(dims)) : \E axes \in Tuples(k, 0..(Len(dims) - 1)) :
    /\ SqueezeOk(dims, axes, k)
    /\ dims' = SqueezeDims(dims, axes, k)
    /\ map' = map
Reshape ==
  \E d \in ShapesUpTo(MaxRank, Len(map)) : Prod(d) = Len(map) /\ dims' = d /\ map' = map

Next == n < Depth /\ n' = n + 1 /\ od' = od /\ (Slice \/ Squeeze \/ Reshape)
Spec == Init /\ [][Next]_vars

Whole == Len(map) = Prod(dims) /\ AllPos(dims)
InBounds == \A i \in 1..Len(map) : map[i] \in 1..Prod(od)
InOrder == \A i \in 1..(Len(map) - 1) : map[i] < map[i + 1]

\* a slice is the increasing list of the positions it selects, and its extents
\* count them along every axis
\* (they are about the shape alone: it is enough to look at every first one)
SliceIsSelection ==
  n = 0 => \A args \in ArgsOf(dims) :
    LET m == SliceMap(dims, Bs(args), Ss(args), Sts(args))
        d == SliceDims(dims, Ss(args), Sts(args))
        Along(k) == Cardinality({Coords(i - 1, dims, Strides(dims))[k] : i \in Selected(dims, args)})
        kept == SelectSeq([k \in 1..Len(dims) |-> k], LAMBDA k : args[k][2] > 0)
    IN /\ {m[i] : i \in 1..Len(m)} = Selected(dims, args)
       /\ \A i \in 1..(Len(m) - 1) : m[i] < m[i + 1]
       /\ d = [j \in 1..Len(kept) |-> Along(kept[j])]
       /\ SliceOk(dims, Bs(args), Ss(args), Sts(args))

\* slicing what was sliced is slicing once
SliceOfSlice ==
  n = 0 => \A args \in ArgsOf(dims) :
    (\A k \in DOMAIN args : args[k][2] > 0) =>
      LET m == SliceMap(dims, Bs(args), Ss(args), Sts(args))
          d == SliceDims(dims, Ss(args), Sts(args))
      IN \A more \in ArgsOf(d) :
           LET m2 == SliceMap(d, Bs(more), Ss(more), Sts(more))
               one == [k \in DOMAIN args |->
                         <<args[k][1] + args[k][3] * more[k][1],
                           IF more[k][2] = 0 THEN 0 ELSE args[k][3] * (more[k][2] - 1) + 1,
                           args[k][3] * more[k][3]>>]
               m1 == SliceMap(dims, Bs(one), Ss(one), Sts(one))
           IN /\ [i \in 1..Len(m2) |-> m[m2[i]]] = m1
              /\ SliceDims(d, Ss(more), Sts(more)) = SliceDims(dims, Ss(one), Sts(one))

SqueezeKeeps ==
  n = 0 => \A k \in 0..MinI(2, Len(dims)) : \A axes \in Tuples(k, 0..(Len(dims) - 1)) :
    LET d == SqueezeDims(dims, axes, k)
    IN /\ SelectSeq(d, LAMBDA x : x # 1) = SelectSeq(dims, LAMBDA x : x # 1)
       /\ Prod(d) = Prod(dims)
       /\ k = 0 => (\A j \in 1..Len(d) : d[j] # 1)
       /\ k > 0 => \A j \in 0..(Len(dims) - 1) :
                     (dims[j + 1] # 1 \/ \A i \in 1..k : axes[i] # j) =>
                        Len(d) >= Cardinality({q \in 0..(Len(dims) - 1) : dims[q + 1] # 1 \/ \A i \in 1..k : axes[i] # q})
       /\ SqueezeDims(d, <<>>, 0) = SqueezeDims(dims, <<>>, 0)
=============================================================================
