----------------------------- MODULE SlotTrace -----------------------------
(* The exclusive-ownership contract of a slot pool, over the slots that the  *)
(* implementation really handed out.  Traces recorded from the code are      *)
(* checked against it event by event.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix, free, held, pend, unit
tvars == <<tr, ix, free, held, pend, unit>>
Ev == Traces[tr].ev
E == Ev[ix]
Set(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Set(s)) = Len(s)
Page(t) == t \div unit
\* slots are numbered from E.lo; a unit of several slots holds unit*p .. unit*p+unit-1
TraceInit == /\ tr \in 1..Len(Traces) /\ ix = 1 /\ free = {} /\ held = {} /\ pend = {} /\ unit = 1
Start == /\ E.op = "init" /\ unit' = E.unit
         /\ free' = E.lo .. E.hi /\ held' = {} /\ pend' = {}
AllocOk == /\ E.op = "alloc" /\ E.ok
           /\ Len(E.slots) = E.n /\ Distinct(E.slots)
           /\ LET u == {Page(t) : t \in Set(E.slots)} IN
              /\ u \subseteq free
              /\ Cardinality(u) = (E.n + unit - 1) \div unit
              /\ free' = free \ u /\ held' = held \cup u
           /\ UNCHANGED <<pend, unit>>
AllocFail == /\ E.op = "alloc" /\ ~E.ok
             /\ (E.n + unit - 1) \div unit > Cardinality(free)
             /\ UNCHANGED <<free, held, pend, unit>>
FreeNow == /\ E.op = "free" /\ ~E.batched
           /\ LET u == {Page(t) : t \in Set(E.slots)} IN
              u \subseteq held /\ free' = free \cup u /\ held' = held \ u
           /\ UNCHANGED <<pend, unit>>
FreeLater == /\ E.op = "free" /\ E.batched
             /\ LET u == {Page(t) : t \in Set(E.slots)} IN
                u \subseteq held /\ pend' = pend \cup u /\ held' = held \ u
             /\ UNCHANGED <<free, unit>>
Flush == /\ E.op = "flush" /\ free' = free \cup pend /\ pend' = {} /\ UNCHANGED <<held, unit>>
Avail == /\ E.op = "avail" /\ E.n = Cardinality(free) * unit /\ UNCHANGED <<free, held, pend, unit>>
TraceNext == /\ ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr
             /\ (Start \/ AllocOk \/ AllocFail \/ FreeNow \/ FreeLater \/ Flush \/ Avail)
Disjoint == free \cap held = {} /\ free \cap pend = {} /\ held \cap pend = {}
=============================================================================
