------------------------------ MODULE Sampling ------------------------------
(* What a request may be answered with: the next token is drawn from the     *)
(* request's own filtered distribution, a function of its own parameters,    *)
(* its logits and its own history.  Logits are integers, in units of ln 2,   *)
(* so every probability is a quotient of powers of two.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds,   \* sequence of [p, l, half, k, tp, rep, freq, pres]: prompt, logits, temperature in halves, ...
          MaxOut
VARIABLES kind, outs, act
vars == <<kind, outs>>

V(r) == 1..Len(r.l)               \* token i - 1 is at index i
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Count(h, t) == Cardinality({i \in 1..Len(h) : h[i] = t})
Logit(r, h, i) ==
  LET c == Count(h, i - 1) l == r.l[i]
      rp == IF c = 0 \/ r.rep = 1 THEN l ELSE IF l > 0 THEN l \div r.rep ELSE l * r.rep
  IN rp - (IF c = 0 THEN 0 ELSE r.pres) - c * r.freq
\* exponent of a token's weight: logit divided by the temperature (half / 2)
Exponent(r, h, i) == IF r.half = 0 THEN Logit(r, h, i) ELSE (2 * Logit(r, h, i)) \div r.half
Top(S) == CHOOSE x \in S : \A y \in S : y <= x
Best(r, h) == Top({Exponent(r, h, i) : i \in V(r)})
Weight(r, h, i) == LET d == Best(r, h) - Exponent(r, h, i) IN IF d > 18 THEN 0 ELSE Pow(18 - d)
RECURSIVE Sum(_, _, _)
Sum(r, h, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Weight(r, h, i) + Sum(r, h, S \ {i})
\* the k heaviest tokens, ties included
TopK(r, h) == IF r.k <= 0 THEN V(r)
              ELSE {i \in V(r) : Cardinality({j \in V(r) : Weight(r, h, j) > Weight(r, h, i)}) < r.k}
\* the shortest prefix, by weight, that reaches tp percent (a tie at the edge may go either way)
TopP(r, h, S) == {i \in S : Sum(r, h, {j \in S : Weight(r, h, j) > Weight(r, h, i)}) * 100
                              <= Sum(r, h, S) * r.tp}
Greedy(r, h) == {i \in V(r) : \A j \in V(r) : Logit(r, h, j) <= Logit(r, h, i)}
Support(r, h) == IF r.half = 0 THEN Greedy(r, h) ELSE TopP(r, h, TopK(r, h))

Hist == Kinds[kind].p \o outs
Init == /\ kind \in 1..Len(Kinds) /\ outs = <<>>
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]
Draw(i) ==
  LET r == Kinds[kind] S == Support(r, Hist) IN
  /\ Len(outs) < MaxOut /\ i \in S
  /\ outs' = Append(outs, i - 1) /\ UNCHANGED kind
  /\ act' = [op |-> "draw", args |-> [kind |-> kind, before |-> outs, token |-> i - 1],
             res |-> [weight |-> Weight(r, Hist, i), total |-> Sum(r, Hist, S)]]
Next == \E i \in V(Kinds[kind]) : Draw(i)

\* what the parameters promise
Some == Support(Kinds[kind], Hist) /= {}
TopKBound == LET r == Kinds[kind] IN r.k > 0 =>
  \A i \in Support(r, Hist) : Cardinality({j \in V(r) : Weight(r, Hist, j) > Weight(r, Hist, i)}) < r.k
BestAlways == LET r == Kinds[kind] IN \A i \in V(r) :
  (\A j \in V(r) : j /= i => Exponent(r, Hist, j) < Exponent(r, Hist, i)) => i \in Support(r, Hist)
Mass == LET r == Kinds[kind] IN r.half > 0 =>
  Sum(r, Hist, Support(r, Hist)) * 100 >= Sum(r, Hist, TopK(r, Hist)) * r.tp
=============================================================================
