------------------------------ MODULE RadixTree ------------------------------
(* Prefix trees of KV slots as values: a function from paths (namespace,     *)
(* token, token, ...) to [val, lock, t].  Used by RadixCache (the cache on   *)
(* its own) and Serve (the cache inside the serving loop).                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS P          \* page size

IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
NS(p) == <<p[1]>>
Nodes(tr) == DOMAIN tr
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* longest element of a set of prefixes of one path
Longest(S, dflt) == IF S = {} THEN dflt ELSE CHOOSE p \in S : \A q \in S : Len(q) <= Len(p)
Parent(tr, p) == Longest({q \in Nodes(tr) : q /= p /\ IsPre(q, p)}, NS(p))
Deep(tr, q) == Longest({p \in Nodes(tr) : IsPre(p, q)}, NS(q))
Kids(tr, p) == {c \in Nodes(tr) : Parent(tr, c) = p}
IsLeaf(tr, p) == \A c \in Nodes(tr) : c = p \/ ~IsPre(p, c)
Aligned(q) == NS(q) \o SubSeq(q, 2, 1 + ((Len(q) - 1) \div P) * P)
\* page-aligned number of tokens that a and b share from position k on
Common(a, b, k) ==
  LET m == (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) - k
  IN Max({0} \cup {j \in 1..m : j % P = 0 /\ SubSeq(a, 1, k + j) = SubSeq(b, 1, k + j)})
RECURSIVE Vals(_, _)
Vals(tr, p) == IF Len(p) = 1 THEN <<>> ELSE Vals(tr, Parent(tr, p)) \o tr[p].val

Walk(tr, q) ==
  LET d == Deep(tr, q)
      cs == {c \in Kids(tr, d) : Common(c, q, Len(d)) > 0}
  IN IF cs = {} THEN [d |-> d, m |-> 0, c |-> d]
     ELSE LET c == CHOOSE c \in cs : TRUE IN [d |-> d, m |-> Common(c, q, Len(d)), c |-> c]

\* follow q: touch what lies on it, split where it leaves a segment (rest: what is
\* left of that segment counts as touched, too)
FollowR(tr, q, now, rest) ==
  LET w == Walk(tr, q)
      touched == [p \in Nodes(tr) |-> IF IsPre(p, q) \/ (rest /\ w.m > 0 /\ p = w.c)
                                      THEN [tr[p] EXCEPT !.t = now] ELSE tr[p]]
      s == SubSeq(q, 1, Len(w.d) + w.m)
      n == touched[w.c]
  IN IF w.m = 0 THEN touched
     ELSE (s :> [n EXCEPT !.val = SubSeq(@, 1, w.m), !.t = now])
          @@ [touched EXCEPT ![w.c].val = SubSeq(@, w.m + 1, Len(@))]
Follow(tr, q, now) == FollowR(tr, q, now, TRUE)

RECURSIVE SumLen(_, _)
SumLen(tr, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN Len(tr[p].val) + SumLen(tr, S \ {p})
Evictable(tr) == SumLen(tr, {p \in Nodes(tr) : tr[p].lock = 0})
Protected(tr) == SumLen(tr, {p \in Nodes(tr) : tr[p].lock > 0})
Range(s) == {s[i] : i \in 1..Len(s)}
Stored(tr) == UNION {Range(tr[p].val) : p \in Nodes(tr)}
RECURSIVE Lowest(_, _)
Lowest(S, n) == IF n = 0 THEN <<>> ELSE LET x == Min(S) IN <<x>> \o Lowest(S \ {x}, n - 1)

LockPath(tr, p, k) == [x \in Nodes(tr) |-> IF IsPre(x, p) THEN [tr[x] EXCEPT !.lock = @ + k] ELSE tr[x]]
RECURSIVE EvictLoop(_, _, _)
EvictLoop(tr, n, freed) ==
  LET c == {p \in Nodes(tr) : tr[p].lock = 0 /\ IsLeaf(tr, p)}
  IN IF freed >= n \/ c = {} THEN tr
     ELSE LET v == CHOOSE p \in c : \A q \in c : tr[p].t <= tr[q].t
          IN EvictLoop([p \in Nodes(tr) \ {v} |-> tr[p]], n, freed + Len(tr[v].val))

\* access times matter only through their order
Rank(tr) == [p \in Nodes(tr) |-> [v |-> tr[p].val, l |-> tr[p].lock,
                                  r |-> Cardinality({q \in Nodes(tr) : tr[q].t < tr[p].t})]]
=============================================================================
