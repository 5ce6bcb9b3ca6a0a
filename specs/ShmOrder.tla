------------------------------ MODULE ShmOrder ------------------------------
(* Several senders, one receiver: what arrives is a merge of the senders'    *)
(* sequences, every request intact and once, every fifth followed by its     *)
(* abort, and no segment is left.                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Senders, Each
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix, next, owed
tvars == <<tr, ix, next, owed>>
Ev == Traces[tr].ev
E == Ev[ix]
TraceInit == tr \in 1..Len(Traces) /\ ix = 1 /\ next = [s \in 1..Senders |-> 0] /\ owed = [s \in 1..Senders |-> FALSE]
Recv == /\ E.op = "recv" /\ E.ok /\ ~owed[E.who] /\ E.n = next[E.who] /\ E.n < Each
        /\ next' = [next EXCEPT ![E.who] = @ + 1] /\ owed' = [owed EXCEPT ![E.who] = E.n % 5 = 4]
Abort == E.op = "abort" /\ owed[E.who] /\ E.n = next[E.who] - 1 /\ owed' = [owed EXCEPT ![E.who] = FALSE] /\ UNCHANGED next
Over == E.op = "end" /\ E.left = 0 /\ (\A s \in 1..Senders : next[s] = Each /\ ~owed[s]) /\ UNCHANGED <<next, owed>>
TraceNext == ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr /\ (Recv \/ Abort \/ Over)
=============================================================================
