------------------------------ MODULE ShmPool ------------------------------
(* A contiguous pool whose chunks are lent to readers: a chunk belongs to    *)
(* the tensor it was given to until every reader has signalled, then it goes *)
(* back and joins its free neighbours.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* pool size
          Readers,  \* signals needed to release a chunk
          Sizes, MaxLive
VARIABLES live, act       \* live: sequence of [lo, hi, left] in order of allocation
vars == <<live>>

Bytes(c) == c.lo .. (c.hi - 1)
Used == UNION {Bytes(live[i]) : i \in 1..Len(live)}
\* maximal runs of free bytes
Gaps == {g \in (0..N) \X (0..N) :
           /\ g[1] < g[2] /\ (g[1]..(g[2] - 1)) \cap Used = {}
           /\ (g[1] = 0 \/ g[1] - 1 \in Used) /\ (g[2] = N \/ g[2] \in Used)}
Fits(n) == {g \in Gaps : g[2] - g[1] >= n}
Best(n) == CHOOSE g \in Fits(n) : \A h \in Fits(n) : g[2] - g[1] < h[2] - h[1] \/ (g[2] - g[1] = h[2] - h[1] /\ g[1] <= h[1])

Init == live = <<>> /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]
Take(n) == /\ Len(live) < MaxLive
           /\ live' = IF Fits(n) = {} THEN live
                      ELSE Append(live, [lo |-> Best(n)[1], hi |-> Best(n)[1] + n, left |-> Readers])
           /\ act' = [op |-> "take", args |-> [n |-> n], res |-> [n |-> 0]]
Signal(i) == /\ live' = IF live[i].left = 1 THEN SubSeq(live, 1, i - 1) \o SubSeq(live, i + 1, Len(live))
                        ELSE [live EXCEPT ![i].left = @ - 1]
             /\ act' = [op |-> "signal", args |-> [i |-> i], res |-> [n |-> 0]]
Next == (\E n \in Sizes : Take(n)) \/ (\E i \in 1..Len(live) : Signal(i))

Disjoint == \A i, j \in 1..Len(live) : i # j => Bytes(live[i]) \cap Bytes(live[j]) = {}
InPool == Used \subseteq 0..(N - 1)
WholeAgain == live = <<>> => Gaps = {<<0, N>>}
=============================================================================
