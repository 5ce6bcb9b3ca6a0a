-------------------------------- MODULE Http --------------------------------
(* The HTTP server.  A call asks for answers to one or several prompts, in   *)
(* one piece or streamed; answers come from the engine in any order.  What   *)
(* has been accepted waits in a queue while the tokenizer does not take it   *)
(* (jam).  Clients may leave at any moment.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Strings
CONSTANTS Templates,   \* calls clients may make
          MaxCalls, MaxRes,
          MaxQ,        \* queue limit, 0: none
          Key,         \* a key is required
          Scripts,     \* model outputs with markers, for chat calls (empty: plain text)
          Cuts,        \* how many characters come at once
          Jams         \* the tokenizer may stall
VARIABLES calls, queue, jam, act
vars == <<calls, queue, jam>>
C == 1..Len(calls)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Min(a, b) == IF a < b THEN a ELSE b
Reasons == <<"stop", "eos", "length", "abort">>
Raw(c, i) == Reasons[((c + i) % 4) + 1]
Shown(r) == IF r \in {"stop", "eos", "abort"} THEN "stop" ELSE r
Blank3(c, k) == (c + k) % 3 = 2                  \* results that add no text
Nothing == [fwd |-> <<>>, out |-> <<>>, ended |-> <<>>]
Init == calls = <<>> /\ queue = <<>> /\ jam = FALSE /\ act = [op |-> "init", args |-> [n |-> 0], res |-> Nothing]

Parsed(t) == t.kind = "chat" /\ Scripts # <<>>
Script(c) == Scripts[(c % Len(Scripts)) + 1]
CallText(x) == "<tool_call>\n{\"name\": \"" \o x.name \o "\", \"arguments\": " \o x.args \o "}\n</tool_call>"
RECURSIVE CallsText(_)
CallsText(s) == IF s = <<>> THEN "" ELSE CallText(Head(s)) \o CallsText(Tail(s))
Think(s) == IF s.r = "" THEN "" ELSE "<think>" \o s.r \o "</think>"
Whole(s) == Think(s) \o s.c \o CallsText(s.calls)

\* what a client is told at the end of a call
Usage(c, k) == [p |-> SumTo([i \in 1..Len(k) |-> 10 * c + i], Len(k)), c |-> SumTo(k, Len(k))]
NoUsage == [p |-> 0, c |-> 0]
Message(c, t) ==
  IF ~Parsed(t) THEN [r |-> "", c |-> "", calls |-> <<>>]
  ELSE LET s == Script(c) IN
       [r |-> IF t.sep THEN s.r ELSE "", calls |-> IF t.tools THEN s.calls ELSE <<>>,
        c |-> (IF t.sep THEN "" ELSE Think(s)) \o s.c \o (IF t.tools THEN "" ELSE CallsText(s.calls))]
Why(c, t, i) == LET r == Raw(c, i) IN
  IF t.kind = "gen" THEN r ELSE IF Parsed(t) /\ Message(c, t).calls # <<>> THEN "tool_calls" ELSE Shown(r)
\* ab: requests aborted by id
End(c, x) == LET t == x.t n == Len(x.k) IN
  [c |-> c, status |-> 200,
   usage |-> IF t.kind = "gen" \/ (t.stream /\ ~t.usage) THEN NoUsage ELSE Usage(c, x.k),
   answers |-> IF t.stream THEN <<>>
               ELSE [i \in 1..n |-> IF i \in x.ab THEN [k |-> 0, why |-> "aborted"] ELSE [k |-> x.k[i], why |-> Why(c, t, i)]],
   msg |-> Message(c, t)]
Fail(c, status) == [c |-> c, status |-> status, usage |-> NoUsage, answers |-> <<>>, msg |-> [r |-> "", c |-> "", calls |-> <<>>]]

QLen == IF queue = <<>> THEN 0 ELSE Len(queue) - 1       \* one message is in the sender's hands
Send(ms) == IF jam THEN queue' = queue \o ms ELSE queue' = queue
Fwd(ms) == IF jam THEN <<>> ELSE ms
Req(c, n) == [i \in 1..n |-> [c |-> c, i |-> i, abort |-> FALSE]]
Status(t) == IF Key /\ t.key \notin {"right", "admin"} THEN 401
             ELSE IF t.bad \in {"n", "echo", "logprobs"} THEN 400
             ELSE IF t.bad = "noinput" THEN IF t.stream THEN 500 ELSE 400
             ELSE IF MaxQ > 0 /\ QLen >= MaxQ THEN IF t.stream THEN 500 ELSE 429
             ELSE 200
\* a failed streaming call is told so in the stream: 500 stands for that
Open(t) ==
  LET c == Len(calls) + 1 st == Status(t) ms == Req(c, t.n) IN
  /\ c <= MaxCalls
  /\ calls' = Append(calls, [t |-> t, open |-> st = 200, k |-> [i \in 1..t.n |-> 0], fin |-> {}, ab |-> {}, pos |-> 0])
  /\ IF st = 200 THEN Send(ms) ELSE UNCHANGED queue
  /\ UNCHANGED jam
  /\ act' = [op |-> "open", args |-> [c |-> c, t |-> t],
             res |-> [Nothing EXCEPT !.fwd = IF st = 200 THEN Fwd(ms) ELSE <<>>,
                                     !.ended = IF st = 200 THEN <<>> ELSE <<Fail(c, st)>>]]

Waiting(c, i) == \E q \in 1..Len(queue) : queue[q].c = c /\ queue[q].i = i /\ ~queue[q].abort
\* every fourth call leaves the choice of ids to the server
Known(c, i) == c % 4 # 3 \/ ~Waiting(c, i)
Item(c, i, k, why) == [c |-> c, i |-> i, k |-> k, why |-> why]
Items(x, c, i, k, last) ==
  LET text == ~Blank3(c, k) why == IF last THEN Why(c, x.t, i) ELSE "" IN
  IF x.t.kind = "chat"
  THEN (IF text THEN <<Item(c, i, k, "")>> ELSE <<>>) \o (IF last THEN <<Item(c, i, 0, why)>> ELSE <<>>)
  ELSE IF text \/ last THEN <<Item(c, i, IF text THEN k ELSE 0, why)>> ELSE <<>>
RECURSIVE Many(_, _, _, _, _, _)
Many(x, c, i, k, m, last) == IF m = 0 THEN <<>> ELSE Items(x, c, i, k + 1, last /\ m = 1) \o Many(x, c, i, k + 1, m - 1, last)
After(x, i, m, last) == LET y == [x EXCEPT !.k[i] = @ + m, !.fin = IF last THEN @ \cup {i} ELSE @] IN
                        [y EXCEPT !.open = y.fin # 1..Len(y.k)]
Over(c, y) == IF y.open THEN <<>> ELSE <<End(c, y)>>
Result(c, i, m, last) ==
  LET x == calls[c] y == After(x, i, m, last) IN
  /\ x.open /\ ~Parsed(x.t) /\ i \in 1..Len(x.k) /\ i \notin x.fin /\ ~Waiting(c, i) /\ x.k[i] + m <= MaxRes
  /\ calls' = [calls EXCEPT ![c] = y] /\ UNCHANGED <<queue, jam>>
  /\ act' = [op |-> "result", args |-> [c |-> c, i |-> i, k |-> x.k[i], m |-> m, last |-> last, why |-> Raw(c, i)],
             res |-> [Nothing EXCEPT !.out = IF x.t.stream THEN Many(x, c, i, x.k[i], m, last) ELSE <<>>, !.ended = Over(c, y)]]
\* n more characters of the text of a chat call
Say(c, n) ==
  LET x == calls[c] w == Whole(Script(c)) p == Min(x.pos + n, Len(w)) last == p = Len(w)
      y == [After(x, 1, 1, last) EXCEPT !.pos = p] IN
  /\ x.open /\ Parsed(x.t) /\ ~Waiting(c, 1)
  /\ calls' = [calls EXCEPT ![c] = y] /\ UNCHANGED <<queue, jam>>
  /\ act' = [op |-> "say", args |-> [c |-> c, k |-> x.k[1] + 1, text |-> Upto(w, p), new |-> SubSeq(w, x.pos + 1, p), last |-> last, why |-> Raw(c, 1)],
             res |-> [Nothing EXCEPT !.ended = Over(c, y)]]
RECURSIVE Undone(_, _, _)
Undone(c, x, i) == IF i > Len(x.k) THEN <<>>
                   ELSE (IF i \in x.fin THEN <<>> ELSE <<[c |-> c, i |-> i, abort |-> TRUE]>>) \o Undone(c, x, i + 1)
Leave(c) ==
  LET x == calls[c] ms == Undone(c, x, 1) IN
  /\ x.open /\ calls' = [calls EXCEPT ![c].open = FALSE] /\ Send(ms) /\ UNCHANGED jam
  /\ act' = [op |-> "leave", args |-> [c |-> c], res |-> [Nothing EXCEPT !.fwd = Fwd(ms)]]
Abort(c, i) ==
  LET x == calls[c] y == [After(x, i, 0, TRUE) EXCEPT !.ab = @ \cup {i}] ms == <<[c |-> c, i |-> i, abort |-> TRUE]>> IN
  /\ x.open /\ x.t.kind = "gen" /\ i \in 1..Len(x.k) /\ i \notin x.fin /\ Known(c, i)
  /\ calls' = [calls EXCEPT ![c] = y] /\ Send(ms) /\ UNCHANGED jam
  /\ act' = [op |-> "abort", args |-> [c |-> c, i |-> i],
             res |-> [Nothing EXCEPT !.fwd = Fwd(ms), !.out = IF x.t.stream THEN <<Item(c, i, 0, "aborted")>> ELSE <<>>, !.ended = Over(c, y)]]
\* a live id is used again
Again(c) ==
  LET x == calls[c] IN
  /\ x.open /\ x.t.kind = "gen" /\ 1 \notin x.fin /\ Known(c, 1) /\ (~Key \/ x.t.key = "right") /\ (MaxQ = 0 \/ QLen < MaxQ) /\ UNCHANGED vars
  /\ act' = [op |-> "again", args |-> [c |-> c, i |-> 1], res |-> [Nothing EXCEPT !.ended = <<Fail(0, 400)>>]]
Jam == Jams /\ ~jam /\ jam' = TRUE /\ UNCHANGED <<calls, queue>> /\ act' = [op |-> "jam", args |-> [n |-> 0], res |-> Nothing]
Unjam == jam /\ jam' = FALSE /\ queue' = <<>> /\ UNCHANGED calls
         /\ act' = [op |-> "unjam", args |-> [n |-> 0], res |-> [Nothing EXCEPT !.fwd = queue]]
Next == \/ \E t \in Templates : Open(t)
        \/ \E c \in C : \/ \E i \in 1..3, m \in 1..2, l \in BOOLEAN : Result(c, i, m, l)
                        \/ \E n \in Cuts : Say(c, n)
                        \/ Leave(c) \/ \E i \in 1..3 : Abort(c, i)
                        \/ Again(c)
        \/ Jam \/ Unjam

\* an abort waits behind its request; an accepted call ends exactly when all its prompts are answered
AbortLast == \A p, q \in 1..Len(queue) : queue[p].abort /\ queue[q].c = queue[p].c /\ queue[q].i = queue[p].i => q <= p
Answered == \A c \in C : calls[c].open => calls[c].fin # 1..Len(calls[c].k)
QueueOnlyJammed == queue # <<>> => jam
=============================================================================
