------------------------------- MODULE MCIndex -------------------------------
(***************************************************************************)
(* Index arithmetic, broadcasting and windows, on every small case.  What: *)
(*   "index"   a shape: coordinates and linear index are inverse to each   *)
(*             other, in the order of storage; the size helpers multiply   *)
(*   "bcast"   three shapes: broadcasting is what numpy does               *)
(*   "window"  an axis: the output extent counts the windows that fit      *)
(***************************************************************************)
EXTENDS Shapes

CONSTANTS What, MaxRank, MaxExt

VARIABLES c

Shps(r, lo, x) == UNION {[1..k -> lo..x] : k \in 0..r}

Init ==
  CASE What = "index" -> c \in {[d |-> d] : d \in Shps(MaxRank, 0, MaxExt)}
    [] What = "bcast" -> c \in {[a |-> a, b |-> b, d |-> d] : a \in Shps(MaxRank, 1, MaxExt), b \in Shps(MaxRank, 1, MaxExt),
                                                              d \in Shps(MaxRank - 1, 1, MaxExt)}
    [] What = "window" -> c \in {[in |-> i, k |-> k, s |-> s, p |-> p, d |-> d] :
                                   i \in 0..MaxExt, k \in 1..MaxExt, s \in 1..MaxExt, p \in 0..3, d \in 1..3}
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

Before(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]

IndexBijection ==
  What = "index" =>
    LET d == c.d
        str == Strides(d)
        n == Prod(d)
        at == [i \in 0..(n - 1) |-> Coords(i, d, str)]
    IN /\ \A i \in 0..(n - 1) : /\ \A k \in 1..Len(d) : 0 <= at[i][k] /\ at[i][k] < d[k]
                                /\ LinIdx(at[i], str) = i
       /\ {at[i] : i \in 0..(n - 1)} = {f \in [1..Len(d) -> 0..(MaxExt - 1)] : \A k \in 1..Len(d) : f[k] < d[k]}
       /\ \A i \in 0..(n - 2) : Before(at[i], at[i + 1])
       /\ \A k \in 1..Len(d) : str[k] = SizeFrom(k, d) /\ SizeTo(k, d) * SizeFrom(k, d) = n
       /\ SizeTo(0, d) = 1 /\ SizeFrom(Len(d), d) = 1 /\ SizeFrom(0, d) = n

BroadcastLaws ==
  What = "bcast" =>
    LET a == c.a
        b == c.b
        d == c.d
        ab == BroadcastDims(a, b)
    IN /\ Broadcastable(a, b) = Broadcastable(b, a)
       /\ Broadcastable(a, b) => ab = BroadcastDims(b, a)
       /\ Broadcastable(a, a) /\ BroadcastDims(a, a) = a
       /\ Broadcastable(a, <<>>) /\ BroadcastDims(a, <<>>) = a
       /\ (Broadcastable(a, b) /\ Broadcastable(ab, d) /\ Broadcastable(b, d) /\ Broadcastable(a, BroadcastDims(b, d)))
            => BroadcastDims(ab, d) = BroadcastDims(a, BroadcastDims(b, d))
       \* every element of an operand is used equally often, in order along the
       \* axes it has
       /\ Broadcastable(a, b) =>
            LET cs == AllCoords(ab)
                ix == [i \in 1..Len(cs) |-> BcastIdx(cs[i], a)]
            IN /\ \A i \in 1..Len(cs) : ix[i] \in 0..(Prod(a) - 1)
               /\ \A e \in 0..(Prod(a) - 1) : Cardinality({i \in 1..Len(cs) : ix[i] = e}) * Prod(a) = Prod(ab)
               /\ \A i \in 1..Len(cs) : LET co == Coords(ix[i], a, Strides(a))
                                            off == Len(ab) - Len(a)
                                        IN \A k \in 1..Len(a) : a[k] # 1 => co[k] = cs[i][off + k]

WindowCount ==
  What = "window" =>
    LET room == c.in + 2 * c.p
        fits == {o \in 0..40 : o * c.s + c.d * (c.k - 1) <= room - 1}
    IN /\ WinOk(c.in, c.k, c.s, c.p, c.d) = (fits # {})
       /\ WinOk(c.in, c.k, c.s, c.p, c.d) => /\ WinOut(c.in, c.k, c.s, c.p, c.d) = Cardinality(fits)
                                             /\ fits = 0..(WinOut(c.in, c.k, c.s, c.p, c.d) - 1)
       /\ CeilDiv(c.in, c.s) = Cardinality({j \in 0..(c.in - 1) : j % c.s = 0})
=============================================================================
