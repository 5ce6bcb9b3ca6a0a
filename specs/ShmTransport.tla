---------------------------- MODULE ShmTransport ----------------------------
(* Requests handed from the tokenizer to the scheduler: the metadata of each *)
(* lies in a segment of its own, the queue carries the segment's name and    *)
(* the tensors.  A segment may vanish (fault); an abort carries no segment.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Payloads,      \* kinds of payload
          MaxSent, Limit \* requests in a behaviour, capacity of the queue
VARIABLES queue, segs, sent, got, lost, act
vars == <<queue, segs, sent, got, lost>>

Init == /\ queue = <<>> /\ segs = {} /\ sent = 0 /\ got = <<>> /\ lost = {}
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [segs |-> 0]]
Send(p) == /\ sent < MaxSent /\ Len(queue) < Limit
           /\ sent' = sent + 1 /\ segs' = segs \cup {sent + 1}
           /\ queue' = Append(queue, [id |-> sent + 1, p |-> p]) /\ UNCHANGED <<got, lost>>
           /\ act' = [op |-> "send", args |-> [id |-> sent + 1, p |-> p], res |-> [segs |-> Cardinality(segs')]]
\* the queue is full: the sender waits, and goes on when the receiver has taken something
Wait(p) == /\ sent < MaxSent /\ Len(queue) = Limit /\ Limit > 0
           /\ sent' = sent + 1
           /\ LET x == Head(queue) bad == x.id \in lost IN
              /\ queue' = Append(Tail(queue), [id |-> sent + 1, p |-> p])
              /\ segs' = (segs \ {x.id}) \cup {sent + 1}
              /\ got' = (IF bad THEN got ELSE Append(got, x)) /\ lost' = lost \ {x.id}
              /\ act' = [op |-> "wait", args |-> [id |-> sent + 1, p |-> p],
                         res |-> [got |-> IF bad THEN <<>> ELSE <<x>>, error |-> bad, segs |-> Cardinality(segs')]]
Take == /\ queue # <<>>
        /\ LET x == Head(queue) bad == x.id \in lost IN
           /\ queue' = Tail(queue) /\ segs' = segs \ {x.id} /\ UNCHANGED sent
           /\ got' = (IF bad THEN got ELSE Append(got, x)) /\ lost' = lost \ {x.id}
           /\ act' = [op |-> "take", args |-> [n |-> 1],
                      res |-> [got |-> IF bad THEN <<>> ELSE <<x>>, error |-> bad, segs |-> Cardinality(segs')]]
\* the scheduler reads everything there is; a request whose segment is missing is dropped, the others arrive
RECURSIVE Sane(_)
Sane(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q).id \in lost THEN <<>> ELSE <<Head(q)>>) \o Sane(Tail(q))
TakeAll == /\ queue # <<>>
           /\ queue' = <<>> /\ segs' = segs \ {queue[i].id : i \in 1..Len(queue)} /\ lost' = {} /\ UNCHANGED sent
           /\ got' = got \o Sane(queue)
           /\ act' = [op |-> "takeall", args |-> [n |-> Len(queue)], res |-> [got |-> Sane(queue), segs |-> Cardinality(segs')]]
Vanish == \E i \in 1..Len(queue) :
             /\ queue[i].id \in segs /\ lost' = lost \cup {queue[i].id} /\ segs' = segs \ {queue[i].id}
             /\ UNCHANGED <<queue, sent, got>>
             /\ act' = [op |-> "vanish", args |-> [id |-> queue[i].id], res |-> [segs |-> Cardinality(segs')]]
\* the receiver discards a request without reading it
Discard == /\ queue # <<>>
           /\ LET x == Head(queue) IN
              /\ queue' = Tail(queue) /\ segs' = segs \ {x.id} /\ lost' = lost \ {x.id} /\ UNCHANGED <<sent, got>>
              /\ act' = [op |-> "discard", args |-> [n |-> 1], res |-> [segs |-> Cardinality(segs')]]
Next == (\E p \in Payloads : Send(p) \/ Wait(p)) \/ Take \/ TakeAll \/ Vanish \/ Discard

InOrder == \A i, j \in 1..Len(got) : i < j => got[i].id < got[j].id
OwnSegments == segs = {queue[i].id : i \in 1..Len(queue)} \ lost
NothingLeft == queue = <<>> => segs = {}
=============================================================================
