------------------------------ MODULE SymText ------------------------------
(* Expressions as token sequences: which are well formed, and what they are  *)
(* worth.  An expression is split at its last + or - outside parentheses,    *)
(* else at its last *, / or %; a leading minus binds tighter than either.    *)
EXTENDS Arith
CONSTANTS Alphabet, MaxLen, Envs,     \* Envs: sequence of functions from names to values
          Atoms,                      \* number token -> value
          Wraps
VARIABLES toks, act
vars == <<toks>>
Names == {"a", "b", "n_1"}
Funcs == {"abs", "floor", "ceil"}
AddOps == {"+", "-"}
MulOps == {"*", "/", "%"}
Operand(t) == t \in Names \/ t \in DOMAIN Atoms
RECURSIVE Depth(_, _)
Depth(ts, i) == IF i = 0 THEN 0 ELSE Depth(ts, i-1) + (IF ts[i] = "(" THEN 1 ELSE IF ts[i] = ")" THEN -1 ELSE 0)
Between(ts, i) == i > 1 /\ (Operand(ts[i-1]) \/ ts[i-1] = ")")
Splits(ts, ops) == {i \in 2..Len(ts) : ts[i] \in ops /\ Depth(ts, i) = 0 /\ Between(ts, i)}
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
Split(ts) == LET p == Splits(ts, AddOps)  q == Splits(ts, MulOps) IN IF p # {} THEN Max(p) ELSE IF q # {} THEN Max(q) ELSE 0
Left(ts, k) == SubSeq(ts, 1, k-1)
Right(ts, k) == SubSeq(ts, k+1, Len(ts))
Inside(ts, from) == SubSeq(ts, from+1, Len(ts)-1)
Enclosed(ts, from) == /\ Len(ts) > from /\ ts[from] = "(" /\ ts[Len(ts)] = ")"
                      /\ \A i \in from..(Len(ts)-1) : Depth(ts, i) >= 1
                      /\ Depth(ts, Len(ts)) = 0
RECURSIVE WellFormed(_)
WellFormed(ts) ==
  IF ts = <<>> THEN FALSE
  ELSE LET k == Split(ts) IN
       IF k > 0 THEN WellFormed(Left(ts, k)) /\ WellFormed(Right(ts, k))
       ELSE IF ts[1] = "-" THEN WellFormed(Tail(ts))
       ELSE IF ts[1] \in Funcs THEN Len(ts) > 1 /\ Enclosed(ts, 2) /\ WellFormed(Inside(ts, 2))
       ELSE IF ts[1] = "(" THEN Enclosed(ts, 1) /\ WellFormed(Inside(ts, 1))
       ELSE Len(ts) = 1 /\ Operand(ts[1])
RECURSIVE Value(_, _)
Value(ts, env) ==
  LET k == Split(ts) IN
  IF k > 0 THEN BinOp(ts[k], Value(Left(ts, k), env), Value(Right(ts, k), env))
  ELSE IF ts[1] = "-" THEN BinOp("-", Whole(0), Value(Tail(ts), env))
  ELSE IF ts[1] \in Funcs THEN UnOp(ts[1], Value(Inside(ts, 2), env))
  ELSE IF ts[1] = "(" THEN Value(Inside(ts, 1), env)
  ELSE IF ts[1] \in DOMAIN Atoms THEN Atoms[ts[1]]
  ELSE IF ts[1] \in DOMAIN env THEN env[ts[1]] ELSE Err
Static(ts) == \A i \in 1..Len(ts) : ts[i] \notin Names
Res(ts) == IF WellFormed(ts) THEN [ok |-> TRUE, values |-> [i \in 1..Len(Envs) |-> Value(ts, Envs[i])], static |-> Static(ts)]
           ELSE [ok |-> FALSE]
Init == toks = <<>> /\ act = [op |-> "init", args |-> [text |-> <<>>, wrap |-> 0], res |-> [ok |-> FALSE]]
Add(t) == /\ Len(toks) < MaxLen /\ toks' = Append(toks, t)
          /\ act' = [op |-> "parse", args |-> [text |-> toks', wrap |-> 0], res |-> Res(toks')]
Wrap(n) == /\ WellFormed(toks) /\ UNCHANGED toks
           /\ act' = [op |-> "parse", args |-> [text |-> toks, wrap |-> n], res |-> Res(toks)]
Next == (\E t \in Alphabet : Add(t)) \/ (\E n \in Wraps : Wrap(n))
\* longer ones: mostly what can still become an expression
Likely(t) == LET l == IF toks = <<>> THEN "(" ELSE toks[Len(toks)] IN
             IF Operand(l) \/ l = ")" THEN t \in AddOps \cup MulOps \/ (t = ")" /\ Depth(toks, Len(toks)) > 0)
             ELSE IF l \in Funcs THEN t = "(" ELSE Operand(t) \/ t \in {"(", "-"} \/ (t \in Funcs)
SimNext == \/ \E t \in Alphabet : Likely(t) /\ Add(t)
           \/ RandomElement(1..25) = 1 /\ \E t \in Alphabet : Add(t)
           \/ RandomElement(1..20) = 1 /\ \E n \in Wraps : Wrap(n)
\* what a grouping means does not depend on redundant parentheses
Grouping == WellFormed(toks) => /\ WellFormed(<<"(">> \o toks \o <<")">>)
                                /\ \A i \in 1..Len(Envs) : Value(<<"(">> \o toks \o <<")">>, Envs[i]) = Value(toks, Envs[i])
                                /\ LET k == Split(toks) IN k > 0 =>
                                   \A i \in 1..Len(Envs) : Value(<<"(">> \o Left(toks, k) \o <<")", toks[k], "(">> \o Right(toks, k) \o <<")">>, Envs[i]) = Value(toks, Envs[i])
=============================================================================
