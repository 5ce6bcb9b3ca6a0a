------------------------------- MODULE Detok -------------------------------
(* Turning token ids into text, piece by piece.  A token is a sequence of    *)
(* bytes (none for a special token); a text is what those bytes mean in      *)
(* UTF-8, ill-formed parts replaced as Unicode prescribes.  Several requests *)
(* are interleaved, an id may be used again after a final or an abort.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vocab,            \* token -> bytes
          Rids, Step,       \* request ids; most tokens per message
          MaxToks, MaxReqs, \* per request; requests in a behaviour
          Whole             \* only well-formed text is generated, though cut anywhere
VARIABLES live, toks, shown, stream, n, act
vars == <<live, toks, shown, stream, n>>
Bad == 65533

Cont(b, lo, hi) == Len(b) >= 1 /\ Head(b) \in lo..hi
Need(x) == IF x < 128 THEN 0 ELSE IF x \in 194..223 THEN 1 ELSE IF x \in 224..239 THEN 2 ELSE IF x \in 240..244 THEN 3 ELSE -1
Low(x) == IF x = 224 THEN 160 ELSE IF x = 240 THEN 144 ELSE 128
High(x) == IF x = 237 THEN 159 ELSE IF x = 244 THEN 143 ELSE 191
\* how many of the expected continuation bytes are there
Have(b) == LET x == b[1] need == Need(x) IN
  IF need < 1 \/ Len(b) < 2 \/ b[2] \notin Low(x)..High(x) THEN 0
  ELSE IF need = 1 \/ Len(b) < 3 \/ b[3] \notin 128..191 THEN 1
  ELSE IF need = 2 \/ Len(b) < 4 \/ b[4] \notin 128..191 THEN 2 ELSE 3
Char(b) == LET x == b[1] k == Need(x) IN
  CASE k = 0 -> x
    [] k = 1 -> (x - 192) * 64 + (b[2] - 128)
    [] k = 2 -> (x - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128)
    [] OTHER -> (x - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + (b[4] - 128)
From(b, k) == SubSeq(b, k, Len(b))
RECURSIVE Dec(_)
Dec(b) == IF b = <<>> THEN <<>>
          ELSE IF Need(b[1]) = -1 THEN <<Bad>> \o Dec(Tail(b))
          ELSE IF Have(b) = Need(b[1]) THEN <<Char(b)>> \o Dec(From(b, Need(b[1]) + 2))
          ELSE <<Bad>> \o Dec(From(b, Have(b) + 2))
RECURSIVE Bytes(_)
Bytes(t) == IF t = <<>> THEN <<>> ELSE Vocab[Head(t)] \o Bytes(Tail(t))
Text(t) == Dec(Bytes(t))
\* the part that no continuation can change: a replacement at the end may yet become a character
RECURSIVE Firm(_)
Firm(s) == IF s # <<>> /\ s[Len(s)] = Bad THEN Firm(SubSeq(s, 1, Len(s) - 1)) ELSE s
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

Sane(t) == Whole => \A i \in 1..(Len(Text(t)) - 1) : Text(t)[i] # Bad
Done(t) == Whole => \A i \in 1..Len(Text(t)) : Text(t)[i] # Bad
UpTo(k) == UNION {[1..m -> DOMAIN Vocab] : m \in 0..k}
Init == /\ live = [r \in Rids |-> FALSE] /\ toks = [r \in Rids |-> <<>>] /\ shown = [r \in Rids |-> <<>>]
        /\ stream = [r \in Rids |-> FALSE] /\ n = 0 /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]
Start(r, s) == /\ ~live[r] /\ n < MaxReqs /\ n' = n + 1
               /\ live' = [live EXCEPT ![r] = TRUE] /\ toks' = [toks EXCEPT ![r] = <<>>]
               /\ shown' = [shown EXCEPT ![r] = <<>>] /\ stream' = [stream EXCEPT ![r] = s]
               /\ act' = [op |-> "start", args |-> [r |-> r, n |-> n'], res |-> [n |-> 0]]
\* the scheduler reports new tokens of a streaming request
Emit(r, x) == /\ live[r] /\ stream[r] /\ Len(x) > 0 /\ Len(toks[r]) + Len(x) <= MaxToks /\ Sane(toks[r] \o x)
              /\ toks' = [toks EXCEPT ![r] = @ \o x] /\ shown' = [shown EXCEPT ![r] = Firm(Text(toks'[r]))]
              /\ UNCHANGED <<live, stream, n>>
              /\ act' = [op |-> "emit", args |-> [r |-> r, x |-> x, old |-> toks[r]],
                         res |-> [one |-> [r |-> r, ids |-> toks'[r], text |-> Text(toks'[r]), firm |-> Firm(Text(toks'[r])), fin |-> "none"]]]
Final(r, x, why) == /\ live[r] /\ Len(toks[r]) + Len(x) <= MaxToks /\ Done(toks[r] \o x)
                    /\ toks' = [toks EXCEPT ![r] = @ \o x] /\ shown' = [shown EXCEPT ![r] = Text(toks'[r])]
                    /\ live' = [live EXCEPT ![r] = FALSE] /\ UNCHANGED <<stream, n>>
                    /\ act' = [op |-> "final", args |-> [r |-> r, x |-> x, old |-> toks[r], why |-> why],
                               res |-> [one |-> [r |-> r, ids |-> toks'[r], text |-> Text(toks'[r]), firm |-> Text(toks'[r]), fin |-> why],
                                        left |-> Cardinality({q \in Rids : live'[q] /\ toks[q] # <<>>})]]
\* aborted: nothing more is heard of the request
Drop(r) == /\ live[r] /\ live' = [live EXCEPT ![r] = FALSE] /\ UNCHANGED <<toks, shown, stream, n>>
           /\ act' = [op |-> "drop", args |-> [r |-> r], res |-> [n |-> 0]]
Next == \E r \in Rids : \/ \E s \in BOOLEAN : Start(r, s)
                        \/ \E x \in UpTo(Step) : Emit(r, x) \/ \E w \in {"stop", "length"} : Final(r, x, w)
                        \/ Drop(r)

ShownIsPart == \A r \in Rids : Prefix(shown[r], Text(toks[r]))
\* what has been shown is never taken back, whatever comes next
Grows == [][\A r \in Rids : live[r] => Prefix(shown[r], shown'[r])]_vars
=============================================================================
