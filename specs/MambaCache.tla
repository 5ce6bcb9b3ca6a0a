----------------------------- MODULE MambaCache -----------------------------
(* The prefix cache for hybrid models: next to the KV slots of a path it     *)
(* keeps, for some of the paths, a snapshot of the recurrent state at its    *)
(* end.  A node is a full path, as in RadixCache.                            *)
EXTENDS RadixTree
CONSTANTS Keys, Probes,
          Cap,       \* KV slots 1..Cap
          Snaps,     \* snapshots 1..Snaps
          MaxLocks,
          Evicts     \* eviction requests <<KV slots, snapshots>>
VARIABLES tree,      \* path -> [val, lock, t, snap (0: none), sl (locks on the snapshot)]
          clock,
          handles,   \* locks: the node, and whether its snapshot is locked with it
          act
vars == <<tree, clock, handles>>

\* the path followed becomes the most recently used, its end before its start;
\* the rest of a segment that is split keeps its place, and its snapshot
Use(tr, a) ==
  LET t2 == Follow(tr, a, 0) IN
  [p \in Nodes(t2) |->
     [t2[p] EXCEPT !.t = IF IsPre(p, a) THEN 16 * clock + Len(p) ELSE tr[p].t,
                   !.snap = IF p \in Nodes(tr) THEN @ ELSE 0,
                   !.sl = IF p \in Nodes(tr) THEN @ ELSE 0]]
SnapOf(tr, p) == IF p \in Nodes(tr) THEN tr[p].snap ELSE 0
WithSnap(tr) == {p \in Nodes(tr) : tr[p].snap > 0}
Held(tr) == {tr[p].snap : p \in WithSnap(tr)}
Obs(tr, r) == r @@ [evictable |-> Evictable(tr), protected |-> Protected(tr), total |-> SumLen(tr, Nodes(tr)),
                    sevictable |-> Cardinality({p \in WithSnap(tr) : tr[p].sl = 0}),
                    sprotected |-> Cardinality({p \in WithSnap(tr) : tr[p].sl > 0})]

Init == /\ tree = <<>> /\ clock = 0 /\ handles = <<>>
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]

LockAt(tr, p) == LET t2 == LockPath(tr, p, 1) IN IF SnapOf(tr, p) > 0 THEN [t2 EXCEPT ![p].sl = @ + 1] ELSE t2
Handle(tr, p) == [d |-> p, s |-> SnapOf(tr, p) > 0]
\* where the first segment without a snapshot begins
Branch(tr, d) == LET c == {p \in Nodes(tr) : IsPre(p, d) /\ tr[p].snap = 0}
                 IN IF c = {} THEN -1 ELSE Min({Len(Parent(tr, p)) - 1 : p \in c})
Match(q, lk) ==
  LET a == Aligned(q) tr == Use(tree, a) d == Deep(tr, a) v == Vals(tr, d)
  IN /\ lk => (Len(handles) < MaxLocks /\ Len(d) > 1)
     /\ tree' = IF lk THEN LockAt(tr, d) ELSE tr
     /\ handles' = IF lk THEN Append(handles, Handle(tr, d)) ELSE handles
     /\ clock' = clock + 1
     /\ act' = [op |-> "match", args |-> [key |-> q, lock |-> lk],
                res |-> Obs(tree', [idx |-> v, n |-> Len(v), snap |-> SnapOf(tr, d), branch |-> Branch(tr, d),
                                    freed |-> {}, dropped |-> {}])]

\* s: with a snapshot of the state after the whole key
Insert(q, s, lk) ==
  LET a == Aligned(q)
      free == (1..Cap) \ Stored(tree)
      vals == Lowest(free, Len(q) - 1)
      snap == IF s THEN Min((1..Snaps) \ Held(tree)) ELSE 0
      tr == Use(tree, a)
      pl == Len(Deep(tr, a)) - 1
      L == Len(a) - 1
      exist == L > 0 /\ pl = L /\ tr[a].snap > 0
      t2 == IF pl = L THEN tr
            ELSE (a :> [val |-> SubSeq(vals, pl + 1, L), lock |-> 0, t |-> 16 * clock + Len(a), snap |-> 0, sl |-> 0]) @@ tr
      t3 == IF s /\ L > 0 /\ ~exist THEN [t2 EXCEPT ![a].snap = snap] ELSE t2
  IN /\ Cardinality(free) >= Len(q) - 1
     /\ s => Cardinality(Held(tree)) < Snaps
     /\ lk => (Len(handles) < MaxLocks /\ L > 0)
     /\ tree' = IF lk THEN LockAt(t3, a) ELSE t3
     /\ handles' = IF lk THEN Append(handles, Handle(t3, a)) ELSE handles
     /\ clock' = clock + 1
     /\ act' = [op |-> "insert", args |-> [key |-> q, vals |-> vals, snap |-> snap, lock |-> lk],
                res |-> Obs(tree', [n |-> pl, exist |-> exist, freed |-> {}, dropped |-> {}])]

Unlock(i) ==
  /\ i \in 1..Len(handles)
  /\ LET h == handles[i] t2 == LockPath(tree, h.d, -1) IN tree' = IF h.s THEN [t2 EXCEPT ![h.d].sl = @ - 1] ELSE t2
  /\ handles' = SubSeq(handles, 1, i - 1) \o SubSeq(handles, i + 1, Len(handles))
  /\ UNCHANGED clock
  /\ act' = [op |-> "unlock", args |-> [i |-> i], res |-> Obs(tree', [freed |-> {}, dropped |-> {}])]

\* first whole leaves, then snapshots: the least recently used first, never what is locked
RECURSIVE Drop(_, _)
Drop(tr, n) ==
  LET c == {p \in WithSnap(tr) : tr[p].sl = 0}
  IN IF n <= 0 \/ c = {} THEN tr
     ELSE LET v == CHOOSE p \in c : \A q \in c : tr[p].t <= tr[q].t IN Drop([tr EXCEPT ![v].snap = 0], n - 1)
Evict(n, k) ==
  LET t1 == EvictLoop(tree, n, 0)
      t2 == Drop(t1, k - Cardinality(Held(tree) \ Held(t1)))
      out == Stored(tree) \ Stored(t2) gone == Held(tree) \ Held(t2)
  IN /\ tree' = t2 /\ UNCHANGED <<clock, handles>>
     /\ act' = [op |-> "evict", args |-> [n |-> n, k |-> k],
                res |-> Obs(t2, [n |-> Cardinality(out), s |-> Cardinality(gone), freed |-> out, dropped |-> gone])]
Reset == /\ handles = <<>> /\ tree /= <<>> /\ tree' = <<>> /\ UNCHANGED <<clock, handles>>
         /\ act' = [op |-> "reset", args |-> [n |-> 0], res |-> Obs(tree', [freed |-> {}, dropped |-> {}])]

Next == \/ \E q \in Keys, s, lk \in BOOLEAN : Insert(q, s, lk)
        \/ \E q \in Probes, lk \in BOOLEAN : Match(q, lk)
        \/ \E i \in 1..MaxLocks : Unlock(i)
        \/ \E x \in Evicts : Evict(x[1], x[2])
        \/ Reset
\* one random candidate per kind of step
SimNext == \/ \E q \in {RandomElement(Keys)}, s \in {RandomElement(BOOLEAN)}, lk \in {RandomElement(BOOLEAN)} : Insert(q, s, lk)
           \/ \E q \in {RandomElement(Keys)} : Insert(q, TRUE, FALSE)
           \/ \E q \in {RandomElement(Probes)}, lk \in {RandomElement(BOOLEAN)} : Match(q, lk)
           \/ \E q \in {RandomElement(Probes)} : Match(q, FALSE)
           \/ \E i \in {RandomElement(1..MaxLocks)} : Unlock(i)
           \/ \E x \in {RandomElement(Evicts)} : Evict(x[1], x[2])
           \/ RandomElement(1..15) = 1 /\ Reset
Order == [p \in Nodes(tree) |-> [v |-> tree[p].val, l |-> tree[p].lock, s |-> tree[p].snap, sl |-> tree[p].sl,
                                 r |-> Cardinality({q \in Nodes(tree) : tree[q].t < tree[p].t})]]
View == <<Order, handles>>

TypeOK == \A p \in Nodes(tree) : Len(tree[p].val) = Len(p) - Len(Parent(tree, p)) /\ Len(tree[p].val) > 0
NoSharedSlot == \A p, q \in Nodes(tree) : p /= q => Range(tree[p].val) \cap Range(tree[q].val) = {}
NoSharedSnapshot == \A p, q \in WithSnap(tree) : p /= q => tree[p].snap /= tree[q].snap
LocksExact == \A p \in Nodes(tree) : /\ tree[p].lock = Cardinality({i \in 1..Len(handles) : IsPre(p, handles[i].d)})
                                     /\ tree[p].sl = Cardinality({i \in 1..Len(handles) : p = handles[i].d /\ handles[i].s})
LockedStay == \A i \in 1..Len(handles) : handles[i].d \in Nodes(tree) /\ (handles[i].s => tree[handles[i].d].snap > 0)
\* recency is strict, so eviction has no choice
Strict == \A p, q \in Nodes(tree) : p /= q => tree[p].t /= tree[q].t
\* a snapshot stays with the path it was taken for
SnapshotMoves == [][\A p \in WithSnap(tree), r \in WithSnap(tree') : tree'[r].snap = tree[p].snap => r = p]_vars
=============================================================================
