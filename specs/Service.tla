------------------------------ MODULE Service ------------------------------
(* The request service step by step: a request pool and a response pool,     *)
(* each a lock and a condition variable; workers; callers that send and      *)
(* wait; a controller that stops and restarts.  It implements Answers, and   *)
(* every call returns.                                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS W,          \* number of workers
          Scripts,    \* caller -> sequence of [op: "send"/"get", id, n]; get: until finished or nothing
          Control     \* sequence of "join", "stop", "start"
Callers == DOMAIN Scripts
Workers == 1..W
Ids == UNION {{Scripts[c][i].id : i \in 1..Len(Scripts[c])} : c \in Callers}
VARIABLES reqs, reqStop, reqWait, running,      \* request pool
          outs, outStop, outWait,               \* response pool: id -> queue of <<number, finished>>
          wpc, cur,                             \* workers: program counter, [id, n, k]
          cpc, ip,                              \* callers
          mpc, mi,                              \* controller
          plan, got, due                        \* ghost
vars == <<reqs, reqStop, reqWait, running, outs, outStop, outWait, wpc, cur, cpc, ip, mpc, mi, plan, got, due>>
ghost == <<plan, got, due>>
Init == /\ reqs = <<>> /\ reqStop = FALSE /\ reqWait = {} /\ running = TRUE
        /\ outs = [i \in Ids |-> <<>>] /\ outStop = FALSE /\ outWait = {}
        /\ wpc = [w \in Workers |-> "top"] /\ cur = [w \in Workers |-> [id |-> 0, n |-> 0, k |-> 0]]
        /\ cpc = [c \in Callers |-> "next"] /\ ip = [c \in Callers |-> 1]
        /\ mpc = "next" /\ mi = 1
        /\ plan = [i \in Ids |-> <<>>] /\ got = [i \in Ids |-> 0] /\ due = [i \in Ids |-> 0]
WGo(w, p) == wpc' = [wpc EXCEPT ![w] = p]
WTop(w) == /\ wpc[w] = "top" /\ WGo(w, IF running THEN "pop" ELSE "end")
           /\ UNCHANGED <<reqs, reqStop, reqWait, running, outs, outStop, outWait, cur, cpc, ip, mpc, mi, ghost>>
WPop(w) ==
  /\ wpc[w] = "pop" \/ (wpc[w] = "waiting" /\ w \notin reqWait)
  /\ IF reqs # <<>> THEN /\ cur' = [cur EXCEPT ![w] = [id |-> Head(reqs).id, n |-> Head(reqs).n, k |-> 0]]
                         /\ reqs' = Tail(reqs) /\ WGo(w, "make") /\ UNCHANGED reqWait
                         /\ due' = [due EXCEPT ![Head(reqs).id] = @ + Head(reqs).n]
     ELSE IF reqStop THEN WGo(w, "end") /\ UNCHANGED <<cur, reqs, reqWait, due>>
     ELSE reqWait' = reqWait \cup {w} /\ WGo(w, "waiting") /\ UNCHANGED <<cur, reqs, due>>
  /\ UNCHANGED <<reqStop, running, outs, outStop, outWait, cpc, ip, mpc, mi, plan, got>>
WMake(w) ==
  /\ wpc[w] = "make"
  /\ LET c == cur[w] IN
     IF c.k = c.n THEN WGo(w, "top") /\ UNCHANGED <<cur, outs, outWait>>
     ELSE /\ cur' = [cur EXCEPT ![w].k = @ + 1]
          /\ outs' = [outs EXCEPT ![c.id] = Append(@, <<c.k + 1, c.k + 1 = c.n>>)]
          /\ outWait' = {} /\ UNCHANGED wpc
  /\ UNCHANGED <<reqs, reqStop, reqWait, running, outStop, cpc, ip, mpc, mi, ghost>>
Op(c) == Scripts[c][ip[c]]
CGo(c, p) == cpc' = [cpc EXCEPT ![c] = p]
CSend(c) ==
  /\ cpc[c] = "next" /\ ip[c] <= Len(Scripts[c]) /\ Op(c).op = "send"
  /\ reqs' = Append(reqs, [id |-> Op(c).id, n |-> Op(c).n])
  /\ plan' = [plan EXCEPT ![Op(c).id] = @ \o [k \in 1..Op(c).n |-> <<k, k = Op(c).n>>]]
  /\ CGo(c, "notify")
  /\ UNCHANGED <<reqStop, reqWait, running, outs, outStop, outWait, wpc, cur, ip, mpc, mi, got, due>>
CNotify(c) ==
  /\ cpc[c] = "notify" /\ CGo(c, "next") /\ ip' = [ip EXCEPT ![c] = @ + 1]
  /\ IF reqWait = {} THEN UNCHANGED reqWait ELSE \E w \in reqWait : reqWait' = reqWait \ {w}
  /\ UNCHANGED <<reqs, reqStop, running, outs, outStop, outWait, wpc, cur, mpc, mi, ghost>>
CGet(c) ==
  /\ ip[c] <= Len(Scripts[c]) /\ Op(c).op = "get"
  /\ cpc[c] = "next" \/ (cpc[c] = "waiting" /\ c \notin outWait)
  /\ LET i == Op(c).id IN
     IF outs[i] # <<>> THEN /\ outs' = [outs EXCEPT ![i] = Tail(@)] /\ got' = [got EXCEPT ![i] = @ + 1]
                            /\ CGo(c, "next") /\ ip' = [ip EXCEPT ![c] = IF Head(outs[i])[2] THEN @ + 1 ELSE @] /\ UNCHANGED outWait
     ELSE IF outStop THEN ip' = [ip EXCEPT ![c] = @ + 1] /\ CGo(c, "next") /\ UNCHANGED <<outs, got, outWait>>
     ELSE outWait' = outWait \cup {c} /\ CGo(c, "waiting") /\ UNCHANGED <<ip, outs, got>>
  /\ UNCHANGED <<reqs, reqStop, reqWait, running, outStop, wpc, cur, mpc, mi, plan, due>>
Finished(c) == cpc[c] = "next" /\ ip[c] > Len(Scripts[c])
M(p) == mpc' = p
MStep ==
  /\ mi <= Len(Control)
  /\ UNCHANGED <<reqs, outs, cur, cpc, ip, ghost>>
  /\ \/ /\ mpc = "next" /\ Control[mi] = "join" /\ (\A c \in Callers : Finished(c)) /\ mi' = mi + 1
        /\ UNCHANGED <<reqStop, reqWait, running, outStop, outWait, wpc, mpc>>
     \/ /\ mpc = "next" /\ Control[mi] = "stop" /\ reqStop' = TRUE /\ reqWait' = {} /\ M("down")
        /\ UNCHANGED <<running, outStop, outWait, wpc, mi>>
     \/ /\ mpc = "down" /\ running' = FALSE /\ M("joining") /\ UNCHANGED <<reqStop, reqWait, outStop, outWait, wpc, mi>>
     \/ /\ mpc = "joining" /\ (\A w \in Workers : wpc[w] = "end") /\ outStop' = TRUE /\ outWait' = {} /\ M("next") /\ mi' = mi + 1
        /\ UNCHANGED <<reqStop, reqWait, running, wpc>>
     \/ /\ mpc = "next" /\ Control[mi] = "start" /\ reqStop' = FALSE /\ outStop' = FALSE /\ running' = TRUE
        /\ wpc' = [w \in Workers |-> "top"] /\ mi' = mi + 1 /\ UNCHANGED <<reqWait, outWait, mpc>>
Next == (\E w \in Workers : WTop(w) \/ WPop(w) \/ WMake(w)) \/ (\E c \in Callers : CSend(c) \/ CNotify(c) \/ CGet(c)) \/ MStep
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : WF_vars(WTop(w) \/ WPop(w) \/ WMake(w)))
             /\ (\A c \in Callers : WF_vars(CSend(c) \/ CNotify(c) \/ CGet(c))) /\ WF_vars(MStep)
Ends == <>((\A c \in Callers : Finished(c)) /\ mi > Len(Control))
A == INSTANCE Answers WITH stopping <- reqStop \/ outStop
Answer(c) == /\ ip[c] <= Len(Scripts[c]) /\ Op(c).op = "get" /\ outs[Op(c).id] # <<>> /\ A!Got(Op(c).id, <<Head(outs[Op(c).id])[1], Head(outs[Op(c).id])[2]>>)
AStep == \/ \E c \in {x \in Callers : ip[x] <= Len(Scripts[x])} : A!Send(Op(c).id, [k \in 1..Op(c).n |-> <<k, k = Op(c).n>>]) \/ Answer(c)
         \/ \E i \in Ids, n \in 0..9 : A!Begin(i, n)
         \/ A!Start \/ A!Stop
Implements == [][AStep]_<<plan, got, due, reqStop \/ outStop>>
\* a caller goes away without an answer only when nothing that was begun is left
NothingLate == [][\A c \in Callers : (ip[c] <= Len(Scripts[c]) /\ Op(c).op = "get" /\ ip'[c] = ip[c] + 1 /\ got' = got) => A!Nothing(Op(c).id)]_vars
=============================================================================
