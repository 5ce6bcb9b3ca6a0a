----------------------------- MODULE RadixCache -----------------------------
(* The prefix cache: token sequences (per namespace) and the KV slots stored *)
(* for them, kept as a tree of segments.  A node is named by its full path   *)
(* <<namespace, token, token, ...>>.                                         *)
EXTENDS RadixTree
CONSTANTS Keys,      \* set of paths that may be inserted
          Probes,    \* set of paths that may be looked up
          Cap,       \* KV slots 1..Cap
          MaxLocks,  \* bound on locks held
          EvictN     \* set of eviction requests

VARIABLES tree,      \* path -> [val, lock, t]
          clock, handles, act
vars == <<tree, clock, handles>>

Obs(tr, r) == r @@ [evictable |-> Evictable(tr), protected |-> Protected(tr),
                    total |-> SumLen(tr, Nodes(tr))]

Init == /\ tree = <<>> /\ clock = 0 /\ handles = <<>>
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]

Match(q, lk) ==
  LET tr == Follow(tree, Aligned(q), 2 * clock)
      d == Deep(tr, Aligned(q))
      v == Vals(tr, d)
  IN /\ lk => (Len(handles) < MaxLocks /\ Len(d) > 1)
     /\ tree' = IF lk THEN LockPath(tr, d, 1) ELSE tr
     /\ handles' = IF lk THEN Append(handles, d) ELSE handles
     /\ clock' = clock + 1
     /\ act' = [op |-> "match", args |-> [key |-> q, lock |-> lk],
                res |-> Obs(tree', [idx |-> v, n |-> Len(v), freed_set |-> {}])]

Insert(q, lk) ==
  LET free == (1..Cap) \ Stored(tree)
      vals == Lowest(free, Len(q) - 1)
      tr == Follow(tree, q, 2 * clock)
      d == Deep(tr, q)
      pl == Len(d) - 1
      tr2 == IF pl = Len(q) - 1 THEN tr
             ELSE (q :> [val |-> SubSeq(vals, pl + 1, Len(vals)), lock |-> 0, t |-> 2 * clock + 1]) @@ tr
  IN /\ Cardinality(free) >= Len(q) - 1
     /\ lk => Len(handles) < MaxLocks
     /\ tree' = IF lk THEN LockPath(tr2, q, 1) ELSE tr2
     /\ handles' = IF lk THEN Append(handles, q) ELSE handles
     /\ clock' = clock + 1
     /\ act' = [op |-> "insert", args |-> [key |-> q, vals |-> vals, lock |-> lk],
                res |-> Obs(tree', [n |-> pl, freed_set |-> {}])]

Unlock(i) ==
  /\ i \in 1..Len(handles)
  /\ tree' = LockPath(tree, handles[i], -1)
  /\ handles' = SubSeq(handles, 1, i - 1) \o SubSeq(handles, i + 1, Len(handles))
  /\ UNCHANGED clock
  /\ act' = [op |-> "unlock", args |-> [i |-> i], res |-> Obs(tree', [freed_set |-> {}])]

Evict(n) ==
  /\ tree' = EvictLoop(tree, n, 0)
  /\ UNCHANGED <<clock, handles>>
  /\ LET out == Stored(tree) \ Stored(tree') IN
     act' = [op |-> "evict", args |-> [n |-> n],
             res |-> Obs(tree', [n |-> Cardinality(out), freed_set |-> out])]

Reset == /\ handles = <<>> /\ tree /= <<>>
         /\ tree' = <<>> /\ UNCHANGED <<clock, handles>>
         /\ act' = [op |-> "reset", args |-> [n |-> 0], res |-> Obs(tree', [freed_set |-> {}])]

Next == \/ \E q \in Keys : \E lk \in BOOLEAN : Insert(q, lk)
        \/ \E q \in Probes : \E lk \in BOOLEAN : Match(q, lk)
        \/ \E i \in 1..MaxLocks : Unlock(i)
        \/ \E n \in EvictN : Evict(n)
        \/ Reset

\* one random candidate per kind of step: fast simulation of large instances
SimNext == \/ \E q \in {RandomElement(Keys)} : \E lk \in {RandomElement(BOOLEAN)} : Insert(q, lk)
           \/ \E q \in {RandomElement(Keys)} : Insert(q, FALSE)
           \/ \E q \in {RandomElement(Probes)} : \E lk \in {RandomElement(BOOLEAN)} : Match(q, lk)
           \/ \E q \in {RandomElement(Probes)} : Match(q, FALSE)
           \/ \E i \in {RandomElement(1..MaxLocks)} : Unlock(i)
           \/ \E n \in {RandomElement(EvictN)} : Evict(n)
           \/ RandomElement(1..15) = 1 /\ Reset

View == <<Rank(tree), handles>>

TypeOK == \A p \in Nodes(tree) : Len(tree[p].val) = Len(p) - Len(Parent(tree, p)) /\ Len(tree[p].val) > 0
NoSharedSlot == \A p, q \in Nodes(tree) : p /= q => Range(tree[p].val) \cap Range(tree[q].val) = {}
LocksExact == \A p \in Nodes(tree) : tree[p].lock = Cardinality({i \in 1..Len(handles) : IsPre(p, handles[i])})
LockedStay == \A i \in 1..Len(handles) : handles[i] \in Nodes(tree)
Sizes == Evictable(tree) + Protected(tree) = Cardinality(Stored(tree))
=============================================================================
