--------------------------- MODULE ShmPoolTrace ---------------------------
(* The contract of ShmPool over the chunks the implementation really lent:  *)
(* recorded runs are checked event by event, whatever its placement policy.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix, n, readers, live
tvars == <<tr, ix, n, readers, live>>
Ev == Traces[tr].ev
E == Ev[ix]
Apart(c, lo, hi) == c.hi <= lo \/ hi <= c.lo
\* the ends of live chunks are the only places where a gap can begin
Starts == {0} \cup {live[i].hi : i \in 1..Len(live)}
Ends == {n} \cup {live[i].lo : i \in 1..Len(live)}
Free(lo, hi) == lo <= hi /\ \A i \in 1..Len(live) : Apart(live[i], lo, hi)
Gap(k) == \E a \in Starts, b \in Ends : b - a >= k /\ Free(a, b)
TraceInit == /\ tr \in 1..Len(Traces) /\ ix = 1 /\ n = 0 /\ readers = 1 /\ live = <<>>
Start == E.op = "init" /\ n' = E.n /\ readers' = E.readers /\ live' = <<>>
Lend == /\ E.op = "take" /\ E.ok
        /\ E.hi - E.lo = E.n /\ 0 <= E.lo /\ E.hi <= n /\ Free(E.lo, E.hi)
        /\ live' = Append(live, [lo |-> E.lo, hi |-> E.hi, id |-> E.id, left |-> readers])
        /\ UNCHANGED <<n, readers>>
Refuse == /\ E.op = "take" /\ ~E.ok /\ (E.settled => ~Gap(E.n)) /\ UNCHANGED <<n, readers, live>>
Signal == /\ E.op = "signal"
          /\ \E i \in 1..Len(live) :
               /\ live[i].id = E.id
               /\ live' = IF live[i].left > 1 THEN [live EXCEPT ![i].left = @ - 1]
                          ELSE SubSeq(live, 1, i - 1) \o SubSeq(live, i + 1, Len(live))
          /\ UNCHANGED <<n, readers>>
\* a reader got what was sent
Read == E.op = "read" /\ E.same /\ UNCHANGED <<n, readers, live>>
TraceNext == /\ ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr /\ (Start \/ Lend \/ Refuse \/ Signal \/ Read)
Disjoint == \A i, j \in 1..Len(live) : i # j => Apart(live[i], live[j].lo, live[j].hi)
=============================================================================
