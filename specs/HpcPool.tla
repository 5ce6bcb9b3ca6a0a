------------------------------ MODULE HpcPool ------------------------------
(* The thread pool step by step: workers that poll the flags of the task     *)
(* slots while the pool is awake and sleep on a condition variable while it  *)
(* is not; callers that hand out tiles, do tile 0 themselves and wait.       *)
(* It implements Loops, and every call returns.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS N,          \* threads including the caller
          Scripts     \* caller -> sequence of "P" <tiles>, "I", "W", "A", "D" records [op, n]
Workers == 1..(N-1)
Callers == DOMAIN Scripts
Slots == Callers
VARIABLES avail, old, flag,   \* flag[s][w]: worker w has a tile of slot s to do
          stop, mutex,        \* 0 or the holder (workers negative, callers positive)
          waiting,            \* workers asleep on the condition
          wpc, ws,            \* worker program counter and the slot it looks at
          cpc, ip, tile,      \* caller program counter, next operation, tile to hand out
          todo, busy, opened  \* ghost: the loop each caller is in
vars == <<avail, old, flag, stop, mutex, waiting, wpc, ws, cpc, ip, tile, todo, busy, opened>>
ghost == <<todo, busy, opened>>
Main == 99
HasTile(w) == \E s \in Slots : flag[s][w]
Op(c) == Scripts[c][ip[c]]
Init == /\ avail = 0 /\ old = 0 /\ stop = FALSE /\ mutex = 0 /\ waiting = {}
        /\ flag = [s \in Slots |-> [w \in Workers |-> FALSE]]
        /\ wpc = [w \in Workers |-> "check"] /\ ws = [w \in Workers |-> 0]
        /\ cpc = [c \in Callers \cup {Main} |-> IF c = Main THEN "join" ELSE "next"]
        /\ ip = [c \in Callers |-> 1] /\ tile = [c \in Callers |-> 0]
        /\ todo = [c \in Callers |-> {}] /\ busy = [c \in Callers |-> {}] /\ opened = [c \in Callers |-> FALSE]

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* thread t does the tiles t, t+N, ... of the caller's n tiles
Tiles(c, t) == {i \in 0..(Op(c).n - 1) : i % N = t}
WGo(w, p) == wpc' = [wpc EXCEPT ![w] = p]
\* ---- workers
WCheck(w) == /\ wpc[w] = "check"
             /\ WGo(w, IF stop THEN "end" ELSE IF avail > 0 \/ HasTile(w) THEN "scan" ELSE "lock")
             /\ ws' = [ws EXCEPT ![w] = 1]
             /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, cpc, ip, tile, ghost>>
WScan(w) == /\ wpc[w] = "scan"
            /\ IF ws[w] \notin Slots THEN WGo(w, "check") /\ UNCHANGED ws
               ELSE IF flag[ws[w]][w] THEN WGo(w, "body") /\ UNCHANGED ws
               ELSE UNCHANGED wpc /\ ws' = [ws EXCEPT ![w] = @ + 1]
            /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, cpc, ip, tile, ghost>>
\* one tile begins or ends; afterwards the flag goes down
WBody(w) ==
  /\ wpc[w] = "body"
  /\ LET c == ws[w]
         mine == {i \in Tiles(c, w) : i \in todo[c]}
         run == {i \in Tiles(c, w) : i \in busy[c]} IN
     IF run # {} THEN busy' = [busy EXCEPT ![c] = @ \ run] /\ UNCHANGED <<todo, flag, ws, wpc, opened>>
     ELSE IF mine # {} THEN LET i == Least(mine) IN
                            /\ todo' = [todo EXCEPT ![c] = @ \ {i}] /\ busy' = [busy EXCEPT ![c] = @ \cup {i}]
                            /\ UNCHANGED <<flag, ws, wpc, opened>>
     ELSE flag' = [flag EXCEPT ![c][w] = FALSE] /\ WGo(w, "scan") /\ ws' = [ws EXCEPT ![w] = @ + 1] /\ UNCHANGED ghost
  /\ UNCHANGED <<avail, old, stop, mutex, waiting, cpc, ip, tile>>
WLock(w) == /\ wpc[w] = "lock" /\ mutex = 0 /\ mutex' = -w /\ WGo(w, "pred")
            /\ UNCHANGED <<avail, old, flag, stop, waiting, ws, cpc, ip, tile, ghost>>
WPred(w) == /\ wpc[w] = "pred" /\ mutex' = 0
            /\ IF stop \/ avail > 0 \/ HasTile(w) THEN WGo(w, "check") /\ UNCHANGED waiting
               ELSE WGo(w, "asleep") /\ waiting' = waiting \cup {w}
            /\ UNCHANGED <<avail, old, flag, stop, ws, cpc, ip, tile, ghost>>
WWake(w) == /\ wpc[w] = "asleep" /\ w \notin waiting /\ WGo(w, "lock")
            /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, ws, cpc, ip, tile, ghost>>
\* ---- callers
CGo(c, p) == cpc' = [cpc EXCEPT ![c] = p]
Next1(c) == CGo(c, "next") /\ ip' = [ip EXCEPT ![c] = @ + 1]
CNext(c) ==
  /\ cpc[c] = "next" /\ ip[c] <= Len(Scripts[c])
  /\ UNCHANGED <<flag, stop, mutex, waiting, wpc, ws, tile>>
  /\ CASE Op(c).op = "P" -> /\ opened' = [opened EXCEPT ![c] = TRUE] /\ todo' = [todo EXCEPT ![c] = 0..(Op(c).n - 1)]
                            /\ CGo(c, IF Op(c).n <= 1 THEN "alone" ELSE "push") /\ UNCHANGED <<avail, old, ip, busy>>
       [] Op(c).op = "D" -> avail' = avail - 1 /\ old' = old - 1 /\ Next1(c) /\ UNCHANGED ghost
       [] OTHER -> CGo(c, "lock") /\ UNCHANGED <<avail, old, ip, ghost>>
CPush(c) == /\ cpc[c] = "push" /\ CGo(c, IF avail <= 0 THEN "alone" ELSE "hand") /\ tile' = [tile EXCEPT ![c] = 1]
            /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, wpc, ws, ip, ghost>>
CHand(c) == /\ cpc[c] = "hand"
            /\ IF tile[c] < N /\ tile[c] < Op(c).n
               THEN flag' = [flag EXCEPT ![c][tile[c]] = TRUE] /\ tile' = [tile EXCEPT ![c] = @ + 1] /\ UNCHANGED cpc
               ELSE CGo(c, IF avail <= 0 THEN "lock" ELSE "own") /\ UNCHANGED <<flag, tile>>
            /\ UNCHANGED <<avail, old, stop, mutex, waiting, wpc, ws, ip, ghost>>
\* the caller does its own tiles ("own") or all of them ("alone")
COwn(c) ==
  /\ cpc[c] \in {"own", "alone"}
  /\ LET all == IF cpc[c] = "own" THEN Tiles(c, 0) ELSE 0..(Op(c).n - 1)
         mine == all \cap todo[c]
         run == all \cap busy[c] IN
     IF run # {} THEN busy' = [busy EXCEPT ![c] = @ \ run] /\ UNCHANGED <<todo, opened, cpc>>
     ELSE IF mine # {} THEN LET i == Least(mine) IN
                            todo' = [todo EXCEPT ![c] = @ \ {i}] /\ busy' = [busy EXCEPT ![c] = @ \cup {i}] /\ UNCHANGED <<opened, cpc>>
     ELSE CGo(c, IF cpc[c] = "own" THEN "wait" ELSE "done") /\ UNCHANGED ghost
  /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, wpc, ws, ip, tile>>
CWait(c) == /\ cpc[c] = "wait" /\ \A w \in Workers : ~flag[c][w] /\ CGo(c, "done")
            /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, wpc, ws, ip, tile, ghost>>
CDone(c) == /\ cpc[c] = "done" /\ opened' = [opened EXCEPT ![c] = FALSE] /\ Next1(c)
            /\ UNCHANGED <<avail, old, flag, stop, mutex, waiting, wpc, ws, tile, todo, busy>>
CLock(c) == /\ cpc[c] = "lock" /\ mutex = 0 /\ mutex' = c /\ CGo(c, "held")
            /\ UNCHANGED <<avail, old, flag, stop, waiting, wpc, ws, ip, tile, ghost>>
CHeld(c) == /\ cpc[c] = "held" /\ mutex' = 0
            /\ CASE Op(c).op = "A" -> avail' = avail + 1 /\ old' = old + 1
                 [] Op(c).op = "I" -> old' = avail /\ avail' = 0
                 [] Op(c).op = "W" -> avail' = old /\ UNCHANGED old
                 [] OTHER -> UNCHANGED <<avail, old>>
            /\ CGo(c, "notify") /\ UNCHANGED <<flag, stop, waiting, wpc, ws, ip, tile, ghost>>
CNotify(c) == /\ cpc[c] = "notify"
              /\ waiting' = IF Op(c).op = "I" THEN waiting ELSE {}
              /\ IF Op(c).op = "P" THEN CGo(c, "own") /\ UNCHANGED ip ELSE Next1(c)
              /\ UNCHANGED <<avail, old, flag, stop, mutex, wpc, ws, tile, ghost>>
Finished(c) == cpc[c] = "next" /\ ip[c] > Len(Scripts[c])
MainStep == /\ \/ cpc[Main] = "join" /\ (\A c \in Callers : Finished(c)) /\ mutex = 0 /\ stop' = TRUE /\ CGo(Main, "notify") /\ UNCHANGED waiting
               \/ cpc[Main] = "notify" /\ waiting' = {} /\ CGo(Main, "joining") /\ UNCHANGED stop
               \/ cpc[Main] = "joining" /\ (\A w \in Workers : wpc[w] = "end") /\ CGo(Main, "gone") /\ UNCHANGED <<stop, waiting>>
            /\ UNCHANGED <<avail, old, flag, mutex, wpc, ws, ip, tile, ghost>>
Worker(w) == WCheck(w) \/ WScan(w) \/ WBody(w) \/ WLock(w) \/ WPred(w) \/ WWake(w)
Caller(c) == CNext(c) \/ CPush(c) \/ CHand(c) \/ COwn(c) \/ CWait(c) \/ CDone(c) \/ CLock(c) \/ CHeld(c) \/ CNotify(c)
Next == (\E w \in Workers : Worker(w)) \/ (\E c \in Callers : Caller(c)) \/ MainStep
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : WF_vars(Worker(w))) /\ (\A c \in Callers : WF_vars(Caller(c))) /\ WF_vars(MainStep)
             /\ (\A w \in Workers : SF_vars(WLock(w))) /\ (\A c \in Callers : SF_vars(CLock(c))) /\ SF_vars(MainStep)

Loops0 == [c \in {x \in Callers : opened[x]} |-> [todo |-> todo[c], running |-> busy[c]]]
L == INSTANCE Loops WITH open <- Loops0,
                         gone <- (cpc[Main] = "gone")
LStep == \/ \E c \in {x \in Callers : ip[x] <= Len(Scripts[x])} :
                \/ L!Push(c, 0, Op(c).n, 1) \/ L!Done(c)
                \/ \E i \in 0..9 : L!RunIdx(c, i) \/ L!EndIdx(c, i)
         \/ L!Destroy
Ends == <>(cpc[Main] = "gone")
Implements == [][LStep]_<<Loops0, cpc[Main] = "gone">>
=============================================================================
