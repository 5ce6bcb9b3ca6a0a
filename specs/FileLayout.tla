----------------------------- MODULE FileLayout -----------------------------
(* Layouts of written model files, one tensor per step: within the file, past *)
(* the table, and no two share a byte.                                        *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
VARIABLES tr, ix, taken
vars == <<tr, ix, taken>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Log == Traces[tr].ev
E == Log[ix]
TraceInit == tr \in 1..Len(Traces) /\ ix = 1 /\ taken = <<>>
Apart(e, f) == e.size = 0 \/ f.size = 0 \/ e.at + e.size <= f.at \/ f.at + f.size <= e.at
TraceNext == /\ ix <= Len(Log) /\ ix' = ix + 1 /\ tr' = tr
             /\ E.at >= E.data /\ E.at + E.size <= E.total
             /\ \A i \in 1..Len(taken) : Apart(E, taken[i]) /\ E.name # taken[i].name
             /\ taken' = Append(taken, E)
=============================================================================
