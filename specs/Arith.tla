------------------------------- MODULE Arith -------------------------------
(* Exact rational arithmetic with the operators of shape expressions.  The   *)
(* implementation computes with 32-bit floats: a value is "exact" while it   *)
(* and everything it came from is representable, "near" when only a rounding *)
(* relative to the value separates the two, "rough" when the rounding is only*)
(* small in itself (sums of rounded values), "any" when nothing can be said  *)
(* (division by zero, very large values, a step function of a rounded value),*)
(* "err" when a variable has no value.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Limit == 20000
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Absolute(n) == IF n < 0 THEN -n ELSE n
RECURSIVE PowerOfTwo(_)
PowerOfTwo(d) == d = 1 \/ (d % 2 = 0 /\ PowerOfTwo(d \div 2))
Unknown == [k |-> "any", n |-> 0, d |-> 1]
Err == [k |-> "err", n |-> 0, d |-> 1]
\* truncating division, for positive d
Trunc(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d
Make(n, d, kind) ==
  LET g == Gcd(Absolute(n), Absolute(d))
      s == IF d < 0 THEN -1 ELSE 1
      p == (s * n) \div g
      q == (s * d) \div g
  IN IF d = 0 \/ Absolute(p) > Limit \/ q > Limit THEN Unknown
     ELSE [k |-> IF kind = "exact" /\ ~PowerOfTwo(q) THEN "near" ELSE kind, n |-> p, d |-> q]
Whole(v) == Make(v, 1, "exact")
Both(a, b) == IF a.k = "err" \/ b.k = "err" THEN "err" ELSE IF a.k = "any" \/ b.k = "any" THEN "any"
              ELSE IF a.k = "exact" /\ b.k = "exact" THEN "exact"
              ELSE IF "rough" \in {a.k, b.k} THEN "rough" ELSE "near"
Rem(a, b) == LET x == Trunc(a.n, a.d)  y == Trunc(b.n, b.d) IN
             IF y = 0 THEN Unknown ELSE Whole(LET r == Absolute(x) % Absolute(y) IN IF x < 0 THEN -r ELSE r)
BinOp(op, a, b) ==
  LET w == Both(a, b)  e == IF w = "exact" THEN "exact" ELSE "rough" IN
  IF w = "err" THEN Err ELSE IF w = "any" THEN Unknown
  ELSE IF w = "rough" /\ op \in {"*", "/"} THEN Unknown
  ELSE CASE op = "+" -> Make(a.n * b.d + b.n * a.d, a.d * b.d, e)
         [] op = "-" -> Make(a.n * b.d - b.n * a.d, a.d * b.d, e)
         [] op = "*" -> Make(a.n * b.n, a.d * b.d, w)
         [] op = "/" -> Make(a.n * b.d, a.d * b.n, w)
         [] op = "%" -> IF w = "exact" THEN Rem(a, b) ELSE Unknown
UnOp(op, a) ==
  IF a.k \in {"err", "any"} THEN a
  ELSE CASE op = "abs" -> [a EXCEPT !.n = Absolute(@)]
         [] a.k # "exact" -> Unknown
         [] op = "floor" -> Whole(a.n \div a.d)
         [] op = "ceil" -> Whole(-((-a.n) \div a.d))
=============================================================================
