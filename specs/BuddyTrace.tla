----------------------------- MODULE BuddyTrace -----------------------------
(* Runs recorded from the real pool, checked against Buddy.  While several   *)
(* threads are at work ("loose") only what was handed out is judged: a block *)
(* is logged as taken after the call, as given back before it.  From "quiet" *)
(* on one thread works alone and everything counts.                          *)
EXTENDS Buddy, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix, loose
Ev == Traces[tr].ev
E == Ev[ix]
ToSet(s) == {s[i] : i \in 1..Len(s)}
None == act' = [op |-> "none", args |-> [h |-> 0, n |-> 0], res |-> [ok |-> TRUE]]
Head1 == Traces[tr].ev[1]
TraceInit == /\ tr \in 1..Len(Traces) /\ ix = 2 /\ loose = Head1.loose
             /\ Start([unit |-> Head1.unit, first |-> Head1.first, threshold |-> Head1.threshold, listed |-> ToSet(Head1.listed)])
             /\ act = [op |-> "none", args |-> [h |-> 0, n |-> 0], res |-> [ok |-> TRUE]]
Fine == E.spoilt = <<>>
Strict == /\ ~loose /\ UNCHANGED loose
          /\ \/ /\ E.op = "alloc" /\ E.h \notin DOMAIN live
                /\ \/ AllocDirect(E.h, E.n) /\ E.seg = 0 /\ E.segs = segs
                   \/ AllocKept(E.h, E.n, E.seg, E.off) /\ E.segs = segs
                   \/ AllocBlock(E.h, E.n, E.seg, E.off, E.segs)
             \/ E.op = "free" /\ E.segs = segs /\ Free(E.h)
             \/ E.op = "list" /\ E.segs = segs /\ List(ToSet(E.l))
Loose ==
  /\ loose /\ UNCHANGED <<cfg, kept, free>>
  /\ \/ /\ E.op = "alloc" /\ E.h \notin DOMAIN live /\ UNCHANGED loose
        /\ LET o == Order(E.n) IN
           IF Direct(E.n) THEN E.seg = 0 /\ Give(E.h, E.n, 0, 0, 0)
           ELSE /\ E.seg \in 1..Len(E.segs) /\ E.off >= 0
                /\ (Rounded(E.n) \notin cfg.listed => E.off % 2^o = 0)
                /\ E.off + 2^o <= 2^E.segs[E.seg]
                /\ \A h \in Given : ~Clash(live[h], [seg |-> E.seg, off |-> E.off, ord |-> o])
                /\ Give(E.h, E.n, E.seg, E.off, o)
        /\ segs' = IF Len(E.segs) > Len(segs) THEN E.segs ELSE segs
     \/ E.op = "free" /\ E.h \in DOMAIN live /\ Drop(E.h) /\ UNCHANGED <<segs, loose>>
(* what is free now is everything that is not taken, merged *)
Quiet == /\ loose /\ E.op = "quiet" /\ loose' = FALSE /\ Given = {} /\ cfg.listed = {}
         /\ segs' = E.segs /\ free' = Whole(E.segs) /\ UNCHANGED <<cfg, live, kept>>
Busy == loose /\ E.op = "quiet" /\ cfg.listed # {} /\ UNCHANGED <<loose, cfg, segs, free, live, kept>>
TraceNext == /\ ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr /\ None /\ Fine /\ (Strict \/ Loose \/ Quiet \/ Busy)
NoOverlapGiven == \A g, h \in Given : g # h => ~Clash(live[g], live[h])
=============================================================================
