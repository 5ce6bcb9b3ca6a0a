------------------------------ MODULE Pattern ------------------------------
(* Cutting a text into words by a pattern, as a regular expression matcher   *)
(* does: at each place the first alternative that matches; within one, each  *)
(* item takes as many characters as still let the rest match.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Patterns,    \* name -> sequence of alternatives [items, ahead]; item: [of |-> set of characters, lo, hi]; ahead: characters that may not follow
          Alphabet, MaxLen, Bits   \* Bits: pieces of text, for longer ones
VARIABLES begun, text, act
vars == <<begun, text>>
-----------------------------------------------------------------------------
Ahead(a, t, p) == p > Len(t) \/ t[p] \notin a.ahead
RECURSIVE RunAt(_, _, _, _), End(_, _, _, _), Down(_, _, _, _, _)
\* how many characters in S follow from p, at most n
RunAt(S, t, p, n) == IF n = 0 \/ p > Len(t) THEN 0 ELSE IF t[p] \notin S THEN 0 ELSE 1 + RunAt(S, t, p + 1, n - 1)
\* where alternative a, from its k-th item on, ends when started at p; 0 if it does not match
End(a, k, t, p) == IF k > Len(a.items) THEN (IF Ahead(a, t, p) THEN p ELSE 0)
                   ELSE LET i == a.items[k] IN Down(a, k, t, p, RunAt(i.of, t, p, i.hi))
Down(a, k, t, p, n) == IF n < a.items[k].lo THEN 0
                       ELSE LET e == End(a, k + 1, t, p + n) IN IF e > 0 THEN e ELSE Down(a, k, t, p, n - 1)
Hits(P, t, p) == {j \in 1..Len(P) : End(P[j], 1, t, p) > p}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
WordEnd(P, t, p) == IF Hits(P, t, p) = {} THEN 0 ELSE End(P[First(Hits(P, t, p))], 1, t, p)
RECURSIVE Cut(_, _, _)
Cut(P, t, p) == IF p > Len(t) THEN <<>> ELSE LET e == WordEnd(P, t, p) IN
                IF e = 0 THEN <<0>> ELSE <<e - p>> \o Cut(P, t, e)
-----------------------------------------------------------------------------
Res(t) == [cuts |-> [n \in DOMAIN Patterns |-> Cut(Patterns[n], t, 1)]]
Init == begun = FALSE /\ text = <<>> /\ act = [op |-> "init", args |-> [text |-> <<>>], res |-> [ok |-> TRUE]]
Add(w) == /\ Len(text) + Len(w) <= MaxLen /\ text' = text \o w /\ begun' = TRUE
          /\ act' = [op |-> "text", args |-> [text |-> text'], res |-> Res(text')]
Next == \E c \in Alphabet : Add(<<c>>)
SimNext == \E k \in {RandomElement(1..2)} : IF k = 1 THEN \E c \in {RandomElement(Alphabet)} : Add(<<c>>) ELSE \E w \in {RandomElement(Bits)} : Add(w)
-----------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* every text is cut completely, into words that are not empty
Complete == \A n \in DOMAIN Patterns : LET c == Cut(Patterns[n], text, 1) IN
              /\ \A i \in 1..Len(c) : c[i] > 0
              /\ Sum(c) = Len(text)
\* a word depends only on what follows where it starts: cutting the rest on its own gives the remaining words
Rest == \A n \in DOMAIN Patterns : LET c == Cut(Patterns[n], text, 1) IN
          Len(c) > 0 => Cut(Patterns[n], SubSeq(text, c[1] + 1, Len(text)), 1) = Tail(c)
=============================================================================
