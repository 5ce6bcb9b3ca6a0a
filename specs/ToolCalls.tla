----------------------------- MODULE ToolCalls -----------------------------
(* Extracting tool calls from the model's output.  The output grows by       *)
(* pieces: content (which may look like a marker), and calls whose bodies    *)
(* and end markers arrive in fragments.  Parse says what the whole output    *)
(* means; shown is the content a streaming extractor may have delivered.     *)
EXTENDS Strings, TLC
CONSTANTS Bot, End,        \* markers; End = "" when a call extends to the end of the output
          Bodies,          \* sequence of [frags |-> sequence of strings, call |-> [name, args]]; name "" : not a call
          Ends,            \* ways of cutting End into fragments
          Content,         \* pieces of content
          MaxPieces
VARIABLES text, n, doing, shown, over, act
vars == <<text, n, doing, shown, over>>

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
CallOf(b) == LET m == {i \in 1..Len(Bodies) : Trim(Cat(Bodies[i].frags)) = Trim(b)}
             IN IF m = {} THEN [name |-> "", args |-> ""] ELSE Bodies[CHOOSE i \in m : TRUE].call
RECURSIVE Parse(_, _)
Parse(s, i) ==
  LET p == Find(s, Bot, i) q == p + Len(Bot) IN
  IF p = 0 THEN [c |-> From(s, i), calls |-> <<>>, closed |-> <<>>, open |-> FALSE, tail |-> From(s, i)]
  ELSE LET e == IF End = "" THEN 0 ELSE Find(s, End, q)
           call == CallOf(IF e = 0 THEN From(s, q) ELSE SubSeq(s, q, e - 1))
           one == IF call.name = "" THEN <<>> ELSE <<call>>
           rest == IF e = 0 THEN [c |-> "", calls |-> <<>>, closed |-> <<>>, open |-> TRUE, tail |-> ""] ELSE Parse(s, e + Len(End))
       IN [c |-> SubSeq(s, i, p - 1) \o rest.c, calls |-> one \o rest.calls,
           closed |-> (IF e = 0 THEN <<>> ELSE one) \o rest.closed, open |-> rest.open, tail |-> rest.tail]
P(s) == Parse(s, 1)
\* content that can no longer turn out to be a marker
Sure(s) == LET x == P(s) IN Upto(x.c, Len(x.c) - Held(x.tail, Bot))

Idle == [b |-> 0, f |-> 0, e |-> 0]
Init == /\ text = "" /\ n = 0 /\ doing = Idle /\ shown = "" /\ over = FALSE
        /\ act = [op |-> "init", args |-> [p |-> ""], res |-> [c |-> ""]]
Put(p, d) ==
  LET s == text \o p x == P(s) IN
  /\ ~over /\ n < MaxPieces /\ n' = n + 1 /\ text' = s /\ doing' = d /\ shown' = Sure(s) /\ UNCHANGED over
  /\ act' = [op |-> "feed", args |-> [p |-> p],
             res |-> [soFar |-> [c |-> x.c,
                                 calls |-> IF d.b > 0 /\ Bodies[d.b].call.name # ""
                                           THEN Append(x.closed, Bodies[d.b].call) ELSE x.closed]]]
Inside == P(text).open
Outside == /\ ~Inside /\ \E p \in Content \cup {Bot} : Put(p, Idle)
Begin == /\ Inside /\ doing.b = 0 /\ \E i \in 1..Len(Bodies) : Put(Bodies[i].frags[1], [b |-> i, f |-> 1, e |-> 0])
More == /\ doing.b > 0 /\ doing.e = 0 /\ doing.f < Len(Bodies[doing.b].frags)
        /\ Put(Bodies[doing.b].frags[doing.f + 1], [doing EXCEPT !.f = @ + 1])
Whole == doing.b > 0 /\ doing.e = 0 /\ doing.f = Len(Bodies[doing.b].frags)
Close == /\ Whole /\ End # ""
         /\ \E i \in 1..Len(Ends) :
              Put(Ends[i][1], IF Len(Ends[i]) = 1 THEN Idle ELSE [b |-> doing.b, f |-> 1, e |-> i])
CloseOn == /\ doing.e > 0
           /\ Put(Ends[doing.e][doing.f + 1], IF doing.f + 1 = Len(Ends[doing.e]) THEN Idle ELSE [doing EXCEPT !.f = @ + 1])
Finish ==
  /\ ~over /\ (doing.b = 0 \/ Whole) /\ over' = TRUE /\ shown' = P(text).c /\ UNCHANGED <<text, n, doing>>
  /\ act' = [op |-> "finish", args |-> [text |-> text], res |-> [whole |-> [c |-> P(text).c, calls |-> P(text).calls]]]
Next == Outside \/ Begin \/ More \/ Close \/ CloseOn \/ Finish

Grows == [][Prefix(shown, shown')]_vars
ShownIsPart == Prefix(shown, P(text).c)
NoMarkerShown == Find(shown, Bot, 1) = 0 \/ End # ""    \* parts around a call may only join to a marker by accident
CallsGrow == [][LET a == P(text).closed b == P(text').closed IN Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))]_vars
=============================================================================
