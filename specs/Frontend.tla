------------------------------ MODULE Frontend ------------------------------
(* The process callers talk to.  A call submits one request or a batch under *)
(* ids of the caller's choice; the back end answers each request with pieces *)
(* and one final result, carrying the id.  Callers may go away, ids may be   *)
(* aborted directly, results may arrive for ids nobody waits for.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rids, IdLists,  \* ids; the id lists a call may use
          MaxCalls, MaxRes
None == 0
VARIABLES calls, live, fin, k, back, act
\* calls: submitted so far, [c |-> ids, stream, batch, open]; live[r]: the call holding id r;
\* fin: held ids whose final result arrived; k[r]: results so far; back: ids the back end works on
vars == <<calls, live, fin, k, back>>
Range(s) == {s[i] : i \in 1..Len(s)}
Held == {r \in Rids : live[r] # None}
Res0 == [fwd |-> <<>>, got |-> <<>>, ended |-> {}, refused |-> FALSE]
\* the table of requests may keep finished members of a batch until the whole call ends
Left(l, f) == [least |-> {r \in Rids : l[r] # None /\ r \notin f}, most |-> {r \in Rids : l[r] # None}]

Init == /\ calls = <<>> /\ live = [r \in Rids |-> None] /\ fin = {} /\ k = [r \in Rids |-> 0] /\ back = {}
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> Res0]

Dup(ids) == \E i, j \in 1..Len(ids) : i # j /\ ids[i] = ids[j]
Fwd(ids, c) == [i \in 1..Len(ids) |-> [r |-> ids[i], c |-> c, i |-> i, abort |-> FALSE]]
Aborts(ids) == [i \in 1..Len(ids) |-> [r |-> ids[i], c |-> 0, i |-> 0, abort |-> TRUE]]
Open(ids, batch, stream) ==
  LET c == Len(calls) + 1 bad == Dup(ids) \/ Range(ids) \cap Held # {} IN
  /\ c <= MaxCalls /\ (batch \/ Len(ids) = 1)
  /\ Range(ids) \cap fin = {}
  /\ calls' = Append(calls, [ids |-> ids, stream |-> stream, batch |-> batch, open |-> ~bad, ok |-> ~bad])
  /\ IF bad THEN UNCHANGED <<live, k, back>>
     ELSE /\ live' = [r \in Rids |-> IF r \in Range(ids) THEN c ELSE live[r]]
          /\ k' = [r \in Rids |-> IF r \in Range(ids) THEN 0 ELSE k[r]] /\ back' = back \cup Range(ids)
  /\ UNCHANGED fin
  /\ act' = [op |-> "open", args |-> [c |-> c, ids |-> ids, batch |-> batch, stream |-> stream],
             res |-> [Res0 EXCEPT !.refused = bad, !.fwd = IF bad THEN <<>> ELSE Fwd(ids, c)] @@ [left |-> Left(live', fin')]]

\* ids whose final results are in, after r's
Ends(c, f) == Range(calls[c].ids) \subseteq f
Drop(c) == [r \in Rids |-> IF live[r] = c THEN None ELSE live[r]]
Close(c) == calls' = [calls EXCEPT ![c].open = FALSE]
\* m results for r arrive together, the last one final or not
Result(r, m, last) ==
  /\ r \in back /\ live[r] # None /\ r \notin fin /\ k[r] + m <= MaxRes
  /\ LET c == live[r] f == IF last THEN fin \cup {r} ELSE fin
         end == last /\ Ends(c, f)
         pieces == [i \in 1..m |-> [c |-> c, r |-> r, k |-> k[r] + i, fin |-> last /\ i = m, err |-> ""]]
         got == IF calls[c].stream THEN pieces ELSE IF last THEN <<pieces[m]>> ELSE <<>>
     IN /\ k' = [k EXCEPT ![r] = @ + m]
        /\ back' = IF last THEN back \ {r} ELSE back
        /\ IF end THEN live' = Drop(c) /\ fin' = f \ Range(calls[c].ids) /\ Close(c)
           ELSE live' = live /\ fin' = f /\ calls' = calls
        /\ act' = [op |-> "result", args |-> [r |-> r, m |-> m, last |-> last, k |-> k[r]],
                   res |-> [Res0 EXCEPT !.got = got, !.ended = IF end THEN {c} ELSE {}] @@ [left |-> Left(live', fin')]]
\* two requests finish at the same time
Both(r, s) ==
  /\ r # s /\ {r, s} \subseteq back /\ live[r] # None /\ live[s] # None /\ {r, s} \cap fin = {}
  /\ k[r] < MaxRes /\ k[s] < MaxRes
  /\ LET f == fin \cup {r, s}
         done == {c \in {live[r], live[s]} : Ends(c, f)}
         one(x) == [c |-> live[x], r |-> x, k |-> k[x] + 1, fin |-> TRUE, err |-> ""]
     IN /\ k' = [k EXCEPT ![r] = @ + 1, ![s] = @ + 1] /\ back' = back \ {r, s}
        /\ live' = [x \in Rids |-> IF live[x] \in done THEN None ELSE live[x]]
        /\ fin' = {x \in f : live[x] \notin done}
        /\ calls' = [i \in 1..Len(calls) |-> IF i \in done THEN [calls[i] EXCEPT !.open = FALSE] ELSE calls[i]]
        /\ act' = [op |-> "both", args |-> [r |-> r, s |-> s, kr |-> k[r], ks |-> k[s]],
                   res |-> [Res0 EXCEPT !.got = <<one(r), one(s)>>, !.ended = done] @@ [left |-> Left(live', fin')]]
Stray(r) == /\ live[r] = None /\ (\E c \in 1..Len(calls) : calls[c].ok) /\ UNCHANGED vars
            /\ act' = [op |-> "stray", args |-> [r |-> r], res |-> Res0 @@ [left |-> Left(live', fin')]]
\* the caller goes away: whatever is unfinished is aborted downstream, in the order of the ids
Mine(c) == SelectSeq(calls[c].ids, LAMBDA r : r \notin fin)
Cancel(c) == /\ c \in 1..Len(calls) /\ calls[c].open
             /\ live' = Drop(c) /\ fin' = fin \ Range(calls[c].ids) /\ Close(c) /\ back' = back \ Range(Mine(c)) /\ UNCHANGED k
             /\ act' = [op |-> "cancel", args |-> [c |-> c],
                        res |-> [Res0 EXCEPT !.fwd = Aborts(Mine(c)), !.ended = {c}] @@ [left |-> Left(live', fin')]]
\* an id is aborted directly; its caller is told
Abort(r) ==
  /\ live[r] # None /\ r \notin fin
  /\ LET c == live[r] f == fin \cup {r} end == Ends(c, f) IN
     /\ back' = back \ {r} /\ UNCHANGED k
     /\ IF end THEN live' = Drop(c) /\ fin' = f \ Range(calls[c].ids) /\ Close(c)
        ELSE live' = live /\ fin' = f /\ calls' = calls
     /\ act' = [op |-> "abort", args |-> [r |-> r],
                res |-> [Res0 EXCEPT !.fwd = Aborts(<<r>>), !.ended = IF end THEN {c} ELSE {},
                                     !.got = <<[c |-> c, r |-> r, k |-> 0, fin |-> TRUE, err |-> "aborted"]>>]
                         @@ [left |-> Left(live', fin')]]
\* a single call is aborted by id and the id used again before its caller has noticed
Reuse(r, stream) ==
  /\ live[r] # None /\ r \notin fin /\ Len(calls[live[r]].ids) = 1 /\ Len(calls) < MaxCalls
  /\ LET c == live[r] d == Len(calls) + 1 IN
     /\ calls' = Append([calls EXCEPT ![c].open = FALSE], [ids |-> <<r>>, stream |-> stream, batch |-> FALSE, open |-> TRUE, ok |-> TRUE])
     /\ live' = [live EXCEPT ![r] = d] /\ k' = [k EXCEPT ![r] = 0] /\ UNCHANGED <<fin, back>>
     /\ act' = [op |-> "reuse", args |-> [r |-> r, c |-> d, ids |-> <<r>>, batch |-> FALSE, stream |-> stream],
                res |-> [Res0 EXCEPT !.fwd = Aborts(<<r>>) \o Fwd(<<r>>, d), !.ended = {c},
                                     !.got = <<[c |-> c, r |-> r, k |-> 0, fin |-> TRUE, err |-> "aborted"]>>] @@ [left |-> Left(live', fin')]]
Next == \/ \E ids \in IdLists, b, s \in BOOLEAN : Open(ids, b, s)
        \/ \E r \in Rids : \/ \E m \in 1..2, l \in BOOLEAN : Result(r, m, l)
                           \/ \E s \in Rids : r < s /\ Both(r, s)
                           \/ Stray(r) \/ Abort(r) \/ \E s \in BOOLEAN : Reuse(r, s)
        \/ \E c \in 1..MaxCalls : Cancel(c)

Owner == \A r \in Held : calls[live[r]].open /\ r \in Range(calls[live[r]].ids)
FinHeld == fin \subseteq Held
Working == \A r \in Held : r \in back \/ r \in fin
NobodyWaits == \A c \in 1..Len(calls) : calls[c].open => ~(Range(calls[c].ids) \subseteq fin)
=============================================================================
