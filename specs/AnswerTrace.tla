---------------------------- MODULE AnswerTrace ----------------------------
(* Recorded runs of the real service, checked against Answers.  A request is *)
(* logged before it is sent, an answer after it was received.  "shared" ids  *)
(* have several readers: what one of them has taken may be logged later than *)
(* what another took afterwards, so there order is not judged.               *)
EXTENDS Answers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix, begun,   \* begun: id -> number of requests taken up
          phase,           \* "never" up, "starting", "on", "stopping", "stopped"
          asks             \* reader -> [id, may]: may have been told that there is nothing
Ev == Traces[tr].ev
E == Ev[ix]
Head1 == Ev[1]
Shared(id) == \E i \in 1..Len(Head1.shared) : Head1.shared[i] = id
TraceInit == tr \in 1..Len(Traces) /\ ix = 2 /\ AInit /\ begun = <<>> /\ phase = "never" /\ asks = <<>>
\* lengths of the requests under an id, in the order they were sent
Lens(id) == [i \in DOMAIN SelectSeq(Ev, LAMBDA e : e.op = "send" /\ e.id = id) |-> Len(SelectSeq(Ev, LAMBDA e : e.op = "send" /\ e.id = id)[i].plan)]
TakeAny(id, a) ==
  /\ \E i \in 1..Len(At(plan, id, <<>>)) : plan[id][i] = a
  /\ LET i == CHOOSE j \in 1..Len(plan[id]) : plan[id][j] = a IN
     plan' = [plan EXCEPT ![id] = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
  /\ UNCHANGED <<got, due, stopping>>
Settled(id) == At(got, id, 0) >= At(due, id, 0)
TraceNext ==
  /\ ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr
  /\ IF E.op = "begin" THEN begun' = Put(begun, E.id, At(begun, E.id, 0) + 1) ELSE UNCHANGED begun
  /\ phase' = CASE E.op = "start" -> (IF phase = "never" THEN "on" ELSE "starting") [] E.op = "started" -> "on" [] E.op = "stop" -> "stopping" [] E.op = "stopped" -> "stopped" [] OTHER -> phase
  /\ asks' = CASE E.op = "ask" -> Put(asks, E.c, [id |-> E.id, may |-> phase \in {"stopped", "starting"} /\ Settled(E.id)])
               [] E.op = "stopped" -> [c \in DOMAIN asks |-> [asks[c] EXCEPT !.may = @ \/ Settled(asks[c].id)]]
               [] OTHER -> asks
  /\ \/ E.op = "start" /\ Start
     \/ E.op = "stop" /\ Stop
     \/ E.op = "send" /\ Send(E.id, E.plan)
     \/ E.op = "sent" /\ E.ret = 0 /\ UNCHANGED avars
     \/ E.op = "malformed" /\ E.ret = -1 /\ UNCHANGED avars
     \/ E.op = "begin" /\ At(begun, E.id, 0) < Len(Lens(E.id)) /\ Begin(E.id, IF Shared(E.id) THEN 0 ELSE Lens(E.id)[At(begun, E.id, 0) + 1])
     \/ E.op = "got" /\ ~E.none /\ (IF Shared(E.id) THEN TakeAny(E.id, E.a) ELSE Got(E.id, E.a))
     \/ E.op = "got" /\ E.none /\ (asks[E.c].may \/ (phase \in {"stopping", "stopped", "starting"} /\ Nothing(E.id))) /\ UNCHANGED avars
     \/ E.op \in {"ask", "started", "stopped", "session"} /\ UNCHANGED avars
     \* nothing is left over when everybody asked until the end
     \/ E.op = "end" /\ (Head1.complete => \A id \in DOMAIN plan : IF Shared(id) THEN plan[id] = <<>> ELSE At(got, id, 0) = Len(plan[id])) /\ UNCHANGED avars
=============================================================================
