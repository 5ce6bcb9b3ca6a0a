----------------------------- MODULE Reasoning -----------------------------
(* Separating reasoning from content.  The model's output grows by pieces;   *)
(* Split says what the whole output means, the variables shown* are what a   *)
(* streaming separator may have delivered so far.                            *)
EXTENDS Strings, TLC
CONSTANTS Start, End, Forced, Pieces, MaxPieces
VARIABLES text, n, shownR, shownC, over, act
vars == <<text, n, shownR, shownC, over>>

\* the first marker pair splits the text; when forced the start marker is optional but only counts at the front
Split(s) ==
  LET front == Len(s) - Len(LTrim(s))
      open  == IF Forced THEN (IF At(s, front + 1, Start) THEN front + 1 ELSE 0) ELSE Find(s, Start, 1)
      in    == IF open > 0 THEN open + Len(Start) ELSE 1
      shut  == Find(s, End, in)
      before == IF open > 0 /\ ~Forced THEN Upto(s, open - 1) ELSE ""
  IN IF open = 0 /\ ~Forced THEN [r |-> "", c |-> s]
     ELSE IF shut = 0 THEN [r |-> From(s, in), c |-> before]
     ELSE [r |-> SubSeq(s, in, shut - 1), c |-> before \o From(s, shut + Len(End))]

\* what can no longer change, whatever follows
Sure(s) ==
  LET x == Split(s) lead == LTrim(s) open == IF Forced THEN At(s, Len(s) - Len(lead) + 1, Start) ELSE Find(s, Start, 1) > 0
      in == IF Forced THEN (IF open THEN Len(s) - Len(lead) + 1 + Len(Start) ELSE 1) ELSE Find(s, Start, 1) + Len(Start)
  IN IF ~Forced /\ ~open THEN [r |-> "", c |-> Upto(s, Len(s) - Held(s, Start))]
     ELSE IF Forced /\ ~open /\ Prefix(lead, Start) THEN [r |-> "", c |-> ""]
     ELSE IF Find(s, End, in) > 0 THEN x
     ELSE [r |-> Upto(x.r, Len(x.r) - Held(x.r, End)), c |-> x.c]

Init == /\ text = "" /\ n = 0 /\ shownR = "" /\ shownC = "" /\ over = FALSE
        /\ act = [op |-> "init", args |-> [p |-> ""], res |-> [r |-> "", c |-> ""]]
Feed(p) ==
  LET s == text \o p IN
  /\ ~over /\ n < MaxPieces /\ n' = n + 1 /\ text' = s
  /\ shownR' = Sure(s).r /\ shownC' = Sure(s).c /\ UNCHANGED over
  /\ act' = [op |-> "feed", args |-> [p |-> p], res |-> [prefix |-> Split(s)]]
Finish ==
  /\ ~over /\ over' = TRUE /\ shownR' = Split(text).r /\ shownC' = Split(text).c /\ UNCHANGED <<text, n>>
  /\ act' = [op |-> "finish", args |-> [text |-> text], res |-> [whole |-> Split(text)]]
Next == (\E p \in Pieces : Feed(p)) \/ Finish

\* nothing is lost or repeated: the parts and at most one pair of markers make up the text
Complete ==
  LET x == Split(text) k == Len(x.r) + Len(x.c)
      lead == Len(text) - Len(LTrim(text)) IN
  k \in {Len(text), Len(text) - Len(Start), Len(text) - Len(End), Len(text) - Len(Start) - Len(End)}
    \/ (Forced /\ k \in {Len(text) - lead - Len(Start), Len(text) - lead - Len(Start) - Len(End)})
NoMarker == (Split(text).r # "") => Find(Split(text).r, End, 1) = 0
\* what has been shown is final: it only ever grows (so streaming and one-shot agree at the end)
Grows == [][Prefix(shownR, shownR') /\ Prefix(shownC, shownC')]_vars
ShownIsPart == Prefix(shownR, Split(text).r) /\ Prefix(shownC, Split(text).c)
=============================================================================
