------------------------------ MODULE SwaTrace ------------------------------
(* Recorded runs of the sliding-window cache are behaviours of SwaCache.     *)
EXTENDS SwaCache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix
E == Traces[tr].ev[ix]
TraceInit == Init /\ tr \in 1..Len(Traces) /\ ix = 1
SetOf(s) == {s[k] : k \in 1..Len(s)}
\* slots are given back once each
Same(r) == \A f \in DOMAIN r : f \in DOMAIN E.res /\
             IF f \in {"full", "win"} THEN Len(E.res[f]) = Cardinality(r[f]) /\ SetOf(E.res[f]) = r[f] ELSE E.res[f] = r[f]
TraceNext ==
  /\ ix <= Len(Traces[tr].ev) /\ ix' = ix + 1 /\ UNCHANGED tr
  /\ \/ E.op = "insert" /\ Insert(E.args.key, E.args.i, E.args.cut, E.args.e, E.args.vals, E.args.lock)
     \/ E.op = "match" /\ Match(E.args.key, E.args.lock)
     \/ E.op = "unlock" /\ Unlock(E.args.i)
     \/ E.op = "evict" /\ Evict(E.args.n, E.args.k)
     \/ E.op = "reset" /\ Reset
  /\ Same(act'.res)
=============================================================================
