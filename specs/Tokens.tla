------------------------------ MODULE Tokens ------------------------------
(* Tokenisation of a text by byte-pair merges and special tokens.            *)
(* A text is a sequence of characters; each character stands for one or more *)
(* units (bytes, in a byte-level vocabulary).  Special tokens are words of   *)
(* characters, merges pairs of words of units, in order of preference.       *)
EXTENDS Naturals, Sequences
CONSTANTS Configs,     \* sequence of [specials |-> set of words, merges |-> sequence of <<left, right>>]
          Alphabet, Units, MaxLen
VARIABLES cfg, text, act
vars == <<cfg, text>>
RECURSIVE Flat(_), Expand(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Flat(Tail(ws))
Expand(w) == Flat([i \in 1..Len(w) |-> Units[w[i]]])
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
-----------------------------------------------------------------------------
\* Splitting off special tokens: the leftmost, and the longest of those that start there.
At(w, t, i) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
Here(S, t, i) == {w \in S : Len(w) > 0 /\ At(w, t, i)}
Longest(ws) == CHOOSE w \in ws : \A v \in ws : Len(w) >= Len(v)
Part(special, w) == [special |-> special, chars |-> w]
RECURSIVE Split(_, _)
Split(S, t) ==
  LET starts == {i \in 1..Len(t) : Here(S, t, i) # {}} IN
  IF t = <<>> THEN <<>>
  ELSE IF starts = {} THEN <<Part(FALSE, t)>>
  ELSE LET i == Min(starts)  w == Longest(Here(S, t, i)) IN
       (IF i > 1 THEN <<Part(FALSE, SubSeq(t, 1, i - 1))>> ELSE <<>>)
       \o <<Part(TRUE, w)>> \o Split(S, SubSeq(t, i + Len(w), Len(t)))
-----------------------------------------------------------------------------
\* Byte-pair merging of a word.
Ranks(M, ws) == {r \in 1..Len(M) : \E i \in 1..(Len(ws) - 1) : M[r] = <<ws[i], ws[i+1]>>}
RECURSIVE MergeAll(_, _)          \* every occurrence of the pair, left to right
MergeAll(p, ws) ==
  IF Len(ws) < 2 THEN ws
  ELSE IF <<ws[1], ws[2]>> = p THEN <<ws[1] \o ws[2]>> \o MergeAll(p, SubSeq(ws, 3, Len(ws)))
  ELSE <<ws[1]>> \o MergeAll(p, Tail(ws))
RECURSIVE Merge(_, _)
Merge(M, ws) == LET r == Ranks(M, ws) IN IF r = {} THEN ws ELSE Merge(M, MergeAll(M[Min(r)], ws))
Bpe(M, us) == Merge(M, [i \in 1..Len(us) |-> <<us[i]>>])
\* The same, one merge at a time.
RECURSIVE Single(_, _)
Single(M, ws) ==
  LET r == Ranks(M, ws) IN
  IF r = {} THEN ws
  ELSE LET i == Min({j \in 1..(Len(ws) - 1) : M[Min(r)] = <<ws[j], ws[j+1]>>}) IN
       Single(M, SubSeq(ws, 1, i - 1) \o <<ws[i] \o ws[i+1]>> \o SubSeq(ws, i + 2, Len(ws)))
-----------------------------------------------------------------------------
Tok(special, w) == [special |-> special, word |-> w]
Plain(M, w) == LET b == Bpe(M, Expand(w)) IN [i \in 1..Len(b) |-> Tok(FALSE, b[i])]
Tokens(c, t) == LET p == Split(c.specials, t) IN
                Flat([i \in 1..Len(p) |-> IF p[i].special THEN <<Tok(TRUE, p[i].chars)>> ELSE Plain(c.merges, p[i].chars)])
Res(c, t) == [parts |-> Split(c.specials, t), tokens |-> Tokens(c, t), units |-> Expand(t), word |-> Bpe(c.merges, Expand(t))]
Init == /\ cfg = 0 /\ text = <<>> /\ act = [op |-> "init", args |-> [cfg |-> 0], res |-> [ok |-> TRUE]]
Open(i) == /\ cfg = 0 /\ cfg' = i /\ UNCHANGED text
           /\ act' = [op |-> "open", args |-> [cfg |-> i], res |-> [ok |-> TRUE]]
Put(c) == /\ cfg > 0 /\ Len(text) < MaxLen /\ text' = Append(text, c) /\ UNCHANGED cfg
          /\ act' = [op |-> "text", args |-> [cfg |-> cfg, text |-> text'], res |-> Res(Configs[cfg], text')]
\* longer texts: whole special tokens and the words that merges make
PutWord(w) == /\ cfg > 0 /\ Len(text) + Len(w) <= MaxLen /\ text' = text \o w /\ UNCHANGED cfg
              /\ act' = [op |-> "text", args |-> [cfg |-> cfg, text |-> text'], res |-> Res(Configs[cfg], text')]
Next == (\E i \in DOMAIN Configs : Open(i)) \/ (\E c \in Alphabet : Put(c))
SimNext == Next \/ (cfg > 0 /\ \E w \in Configs[cfg].specials : PutWord(w))
-----------------------------------------------------------------------------
C == Configs[cfg]
Known == cfg > 0
NothingLost == Known => /\ Flat([i \in 1..Len(Split(C.specials, text)) |-> Split(C.specials, text)[i].chars]) = text
                        /\ LET t == Tokens(C, text) IN
                           Flat([i \in 1..Len(t) |-> IF t[i].special THEN Expand(t[i].word) ELSE t[i].word]) = Expand(text)
\* No special token is left in a plain part, plain parts are never adjacent, and a special token taken is one
AllSpecial == Known => LET p == Split(C.specials, text) IN
  \A i \in 1..Len(p) : /\ p[i].chars # <<>>
                       /\ p[i].special => p[i].chars \in C.specials
                       /\ ~p[i].special => \A j \in 1..Len(p[i].chars) : Here(C.specials, p[i].chars, j) = {}
                       /\ (i < Len(p) /\ ~p[i].special) => p[i+1].special
Done == Known => Ranks(C.merges, Bpe(C.merges, Expand(text))) = {}
\* On tables in which each word is made by one merge, of units or of words made earlier, the order of equal merges is immaterial.
Made(M, w) == {r \in 1..Len(M) : M[r][1] \o M[r][2] = w}
WellFormed(M) == \A r \in 1..Len(M) : /\ Made(M, M[r][1] \o M[r][2]) = {r}
                                     /\ \A k \in 1..2 : Len(M[r][k]) > 1 => \E q \in 1..(r-1) : q \in Made(M, M[r][k])
OneByOne == Known /\ WellFormed(C.merges) => Bpe(C.merges, Expand(text)) = Single(C.merges, [i \in 1..Len(Expand(text)) |-> <<Expand(text)[i]>>])
=============================================================================
