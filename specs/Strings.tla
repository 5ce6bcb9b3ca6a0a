------------------------------ MODULE Strings ------------------------------
(* Searching and trimming strings (TLC treats a string as a sequence). *)
EXTENDS Integers, Sequences

At(s, i, m) == i + Len(m) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(m) - 1) = m
\* position of the first m in s at or after i, 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, m, i) == IF i + Len(m) - 1 > Len(s) THEN 0 ELSE IF At(s, i, m) THEN i ELSE Find(s, m, i + 1)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Blank(c) == c \in {" ", "\n", "\t"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ Blank(SubSeq(s, 1, 1)) THEN LTrim(From(s, 2)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Blank(SubSeq(s, Len(s), Len(s))) THEN RTrim(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
Prefix(a, b) == Len(a) <= Len(b) /\ Upto(b, Len(a)) = a
\* length of the longest proper prefix of m that s ends with
RECURSIVE HeldN(_, _, _)
HeldN(s, m, n) == IF n <= 0 THEN 0
                  ELSE IF n <= Len(s) /\ SubSeq(s, Len(s) - n + 1, Len(s)) = SubSeq(m, 1, n) THEN n
                  ELSE HeldN(s, m, n - 1)
Held(s, m) == HeldN(s, m, Len(m) - 1)
=============================================================================
