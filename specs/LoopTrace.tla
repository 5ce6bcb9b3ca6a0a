----------------------------- MODULE LoopTrace -----------------------------
(* Recorded runs of the real pool, checked against Loops.                    *)
EXTENDS Loops, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix
Ev == Traces[tr].ev
E == Ev[ix]
TraceInit == tr \in 1..Len(Traces) /\ ix = 1 /\ LInit
TraceNext == /\ ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr
             /\ \/ E.op = "push" /\ Push(E.id, E.a, E.b, E.c)
                \/ E.op = "run" /\ RunIdx(E.id, E.i)
                \/ E.op = "end" /\ EndIdx(E.id, E.i)
                \/ E.op = "done" /\ Done(E.id)
                \/ E.op = "op" /\ ~gone /\ UNCHANGED lvars
                \/ E.op = "destroyed" /\ Destroy
=============================================================================
