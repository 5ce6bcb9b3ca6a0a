------------------------------ MODULE SwaCache ------------------------------
(* The prefix cache for models with a sliding attention window.  A slot has  *)
(* KV for the full-attention layers and window KV; an entry whose window KV  *)
(* has been dropped (tomb) keeps its slots.  A node is a full path, as in    *)
(* RadixCache.                                                               *)
EXTENDS RadixTree
CONSTANTS W,         \* window, in tokens
          Keys, Probes, Cap, MaxLocks,
          Evicts,    \* eviction requests <<full, window>>
          Drops,     \* how many tokens have lost their window KV before an insert
          Blind,     \* the pool keeps no window KV
          Cuts       \* by how much a request uses less than its hit
VARIABLES tree,      \* path -> [val, lock, t, tomb]
          clock,
          handles,   \* locks: the node locked, where its window lock begins, and how much it covers
          nowin,     \* slots whose window KV has been dropped
          act
vars == <<tree, clock, handles, nowin>>

Start(tr, p) == Len(Parent(tr, p))
\* the window lock covers whole entries until the window is full
RECURSIVE LockFrom(_, _, _)
LockFrom(tr, p, got) ==
  IF Len(p) = 1 THEN 1
  ELSE LET g == IF tr[p].tomb THEN got ELSE got + Len(tr[p].val) IN
       IF g >= W /\ ~tr[p].tomb THEN Start(tr, p) ELSE LockFrom(tr, Parent(tr, p), g)
WinLocked(tr, hs, p) == ~tr[p].tomb /\ \E i \in 1..Len(hs) : IsPre(p, hs[i].d) /\ Start(tr, p) >= hs[i].b
\* how far the window KV reaches back without a gap: to the start, or so many tokens
RECURSIVE Back(_, _)
Back(tr, p) == IF Len(p) = 1 THEN W
               ELSE IF tr[p].tomb THEN 0
               ELSE LET b == Back(tr, Parent(tr, p)) + Len(tr[p].val) IN IF b > W THEN W ELSE b
Usable(tr, q) == LET c == {p \in Nodes(tr) : IsPre(p, q) /\ Back(tr, p) >= W} IN Longest(c, NS(q))

WinEvictable(tr, hs) == SumLen(tr, {p \in Nodes(tr) : ~tr[p].tomb /\ ~WinLocked(tr, hs, p)})
WinProtected(tr, hs) == SumLen(tr, {p \in Nodes(tr) : WinLocked(tr, hs, p)})
Obs(tr, hs, r) == r @@ [evictable |-> Evictable(tr), protected |-> Protected(tr), total |-> SumLen(tr, Nodes(tr)),
                        wevictable |-> WinEvictable(tr, hs), wprotected |-> WinProtected(tr, hs)]

Init == /\ tree = <<>> /\ clock = 0 /\ handles = <<>> /\ nowin = {}
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]

\* a segment split by following q: the upper part is the newer node
FollowN(tr, q, now) ==
  LET tr2 == Follow(tr, q, now) new == Nodes(tr2) \ Nodes(tr) IN
  [p \in Nodes(tr2) |-> IF p \in new THEN [tr2[p] EXCEPT !.t = now + 1] ELSE tr2[p]]

Covered(tr, d, b) == SumLen(tr, {p \in Nodes(tr) : IsPre(p, d) /\ Start(tr, p) >= b /\ ~tr[p].tomb})
Lock(tr, hs, p) == LET b == LockFrom(tr, p, 0) IN Append(hs, [d |-> p, b |-> b, k |-> Covered(tr, p, b)])
Match(q, lk) ==
  LET a == Aligned(q)
      tr == FollowN(tree, a, 4 * clock)
      d == Usable(tr, a)
      v == Vals(tr, d)
  IN /\ lk => (Len(handles) < MaxLocks /\ Len(d) > 1)
     /\ handles' = IF lk THEN Lock(tr, handles, d) ELSE handles
     /\ tree' = IF lk THEN LockPath(tr, d, 1) ELSE tr
     /\ clock' = clock + 1 /\ UNCHANGED nowin
     /\ act' = [op |-> "match", args |-> [key |-> q, lock |-> lk],
                res |-> Obs(tree', handles', [idx |-> v, n |-> Len(v), full |-> {}, win |-> {}])]

\* a request that used the first p tokens (its own hit) gives q to the cache; the
\* window KV of its first e tokens is gone; vals: its slots
Insert(q, i, cut, e, vals, lk) ==
  LET a == Aligned(q)
      tr == FollowN(tree, a, 4 * clock)
      L == Len(a) - 1
      pl == Len(Deep(tr, a)) - 1
      p == IF i = 0 THEN 0 ELSE Len(handles[i].d) - 1 - cut
      Lo(x) == Start(tr, x) - 1
      on == {x \in Nodes(tr) : IsPre(x, a)}
      revive == {x \in on : tr[x].tomb /\ tr[x].lock = 0 /\ e <= Lo(x) /\ p < Len(x) - 1}
      dup == {j \in (p + 1)..pl : \A x \in revive : ~(Lo(x) < j /\ j < Len(x))}
      old == [x \in Nodes(tr) |-> IF x \in revive THEN [tr[x] EXCEPT !.tomb = FALSE, !.val = SubSeq(vals, Lo(x) + 1, Len(x) - 1)] ELSE tr[x]]
      tl == IF e < pl THEN 0 ELSE IF e > L THEN L - pl ELSE e - pl
      mid == SubSeq(a, 1, 1 + pl + tl)
      New(lo, hi, k, tomb) == [val |-> SubSeq(vals, lo + 1, hi), lock |-> 0, t |-> 4 * clock + k, tomb |-> tomb]
      t1 == IF tl > 0 THEN (mid :> New(pl, pl + tl, 2, TRUE)) @@ old ELSE old
      t2 == IF pl + tl < L THEN (a :> New(pl + tl, L, 3, FALSE)) @@ t1 ELSE t1
      back == UNION {Range(tr[x].val) : x \in revive} \cup {vals[j] : j \in dup}
  IN /\ i <= Len(handles) /\ (i > 0 => IsPre(handles[i].d, a) /\ p >= 0)
     /\ lk => (Len(handles) < MaxLocks /\ L > 0)
     /\ handles' = IF lk THEN Lock(t2, handles, a) ELSE handles
     /\ tree' = IF lk THEN LockPath(t2, a, 1) ELSE t2
     /\ clock' = clock + 1
     /\ nowin' = (nowin \cup {vals[j] : j \in {k \in (p + 1)..Len(vals) : k <= e}}) \cap Stored(t2)
     /\ act' = [op |-> "insert", args |-> [key |-> q, i |-> i, cut |-> cut, e |-> e, vals |-> vals, lock |-> lk],
                res |-> Obs(tree', handles', [n |-> pl, full |-> back, win |-> {}])]
\* the slots a request has when it inserts: those of its hit, and free ones
Own(q, i, cut) ==
  LET n == IF i = 0 THEN 0 ELSE Len(handles[i].d) - 1 - cut
      free == (1..Cap) \ Stored(tree)
  IN IF Cardinality(free) < Len(q) - 1 - n THEN <<>>
     ELSE (IF i = 0 THEN <<>> ELSE SubSeq(Vals(tree, handles[i].d), 1, n)) \o Lowest(free, Len(q) - 1 - n)
InsertOwn(q, i, cut, e, lk) ==
  /\ i <= Len(handles) /\ (i = 0 => cut = 0) /\ (i > 0 => IsPre(handles[i].d, q) /\ Len(handles[i].d) - 1 >= cut)
  /\ LET vals == Own(q, i, cut) IN vals # <<>> /\ Insert(q, i, cut, e, vals, lk)

Unlock(i) ==
  /\ i \in 1..Len(handles)
  /\ tree' = LockPath(tree, handles[i].d, -1)
  /\ handles' = SubSeq(handles, 1, i - 1) \o SubSeq(handles, i + 1, Len(handles))
  /\ UNCHANGED <<clock, nowin>>
  /\ act' = [op |-> "unlock", args |-> [i |-> i], res |-> Obs(tree', handles', [full |-> {}, win |-> {}])]

\* remove a leaf, and the tombs that only led to it
RECURSIVE Prune(_, _)
Prune(tr, p) ==
  LET t1 == [x \in Nodes(tr) \ {p} |-> tr[x]] u == Parent(tr, p)
  IN IF u \in Nodes(t1) /\ IsLeaf(t1, u) /\ t1[u].lock = 0 /\ t1[u].tomb THEN Prune(t1, u) ELSE t1
\* first whole entries, least recently used first ...
RECURSIVE Full(_, _)
Full(s, n) ==
  LET tr == s.tr c == {p \in Nodes(tr) : tr[p].lock = 0 /\ IsLeaf(tr, p)}
  IN IF s.f >= n \/ c = {} THEN s
     ELSE LET v == CHOOSE p \in c : \A q \in c : tr[p].t <= tr[q].t t2 == Prune(tr, v)
          IN Full([tr |-> t2, f |-> s.f + SumLen(tr, Nodes(tr) \ Nodes(t2)), w |-> s.w + (IF tr[v].tomb THEN 0 ELSE Len(tr[v].val)), lost |-> {}], n)
\* ... then window KV (of a leaf: the whole entry); all outcomes, as entries may be equally old
RECURSIVE Win(_, _, _)
Win(s, n, hs) ==
  LET tr == s.tr c == {p \in Nodes(tr) : ~tr[p].tomb /\ ~WinLocked(tr, hs, p)}
      lru == {p \in c : \A q \in c : tr[p].t <= tr[q].t}
  IN IF s.w >= n \/ c = {} THEN {s}
     ELSE UNION {Win(IF IsLeaf(tr, v)
                     THEN LET t2 == Prune(tr, v) IN [tr |-> t2, f |-> s.f + SumLen(tr, Nodes(tr) \ Nodes(t2)), w |-> s.w + Len(tr[v].val), lost |-> s.lost]
                     ELSE [tr |-> [tr EXCEPT ![v].tomb = TRUE], f |-> s.f, w |-> s.w + Len(tr[v].val), lost |-> s.lost \cup Range(tr[v].val)], n, hs) : v \in lru}
Tombs(tr) == UNION {Range(tr[p].val) : p \in {p \in Nodes(tr) : tr[p].tomb}}
Evict(n, k) ==
  \E s \in Win(Full([tr |-> tree, f |-> 0, w |-> 0, lost |-> {}], n), k, handles) :
    /\ tree' = s.tr /\ UNCHANGED <<clock, handles>>
    /\ nowin' = Tombs(s.tr)
    /\ act' = [op |-> "evict", args |-> [n |-> n, k |-> k],
               res |-> Obs(tree', handles, [n |-> s.f, w |-> s.w, full |-> Stored(tree) \ Stored(s.tr),
                                            win |-> IF Blind THEN {} ELSE s.lost])]
Reset == /\ handles = <<>> /\ tree /= <<>> /\ tree' = <<>> /\ nowin' = {} /\ UNCHANGED <<clock, handles>>
         /\ act' = [op |-> "reset", args |-> [n |-> 0], res |-> Obs(tree', <<>>, [full |-> {}, win |-> {}])]

Ev(q) == {e \in Drops : e <= Len(q) - 1}
Next ==    \/ \E q \in Keys, lk \in BOOLEAN, i \in 0..MaxLocks, cut \in Cuts : \E e \in Ev(q) : InsertOwn(q, i, cut, e, lk)
           \/ \E q \in Probes, lk \in BOOLEAN : Match(q, lk)
           \/ \E i \in 1..MaxLocks : Unlock(i)
           \/ \E x \in Evicts : Evict(x[1], x[2])
           \/ Reset
\* one random candidate per kind of step
SimNext ==    \/ \E q \in {RandomElement(Keys)}, lk \in {RandomElement(BOOLEAN)}, i \in {RandomElement(0..MaxLocks)},
                    cut \in {RandomElement(Cuts)} : \E e \in {RandomElement({0, 0} \cup Ev(q))} : InsertOwn(q, i, cut, e, lk)
              \/ \E q \in {RandomElement(Keys)} : InsertOwn(q, 0, 0, 0, FALSE)
              \/ \E q \in {RandomElement(Probes)}, lk \in {RandomElement(BOOLEAN)} : Match(q, lk)
              \/ \E q \in {RandomElement(Probes)} : Match(q, TRUE)
              \/ \E i \in {RandomElement(1..MaxLocks)} : Unlock(i)
              \/ \E x \in {RandomElement(Evicts)} : Evict(x[1], x[2])
              \/ RandomElement(1..20) = 1 /\ Reset
Order == [p \in Nodes(tree) |-> [l |-> tree[p].lock, x |-> tree[p].tomb,
                                 r |-> Cardinality({q \in Nodes(tree) : tree[q].t < tree[p].t})]]
View == <<Order, handles>>

TypeOK == \A p \in Nodes(tree) : Len(tree[p].val) = Len(p) - Len(Parent(tree, p)) /\ Len(tree[p].val) > 0
NoSharedSlot == \A p, q \in Nodes(tree) : p /= q => Range(tree[p].val) \cap Range(tree[q].val) = {}
LocksExact == \A p \in Nodes(tree) : tree[p].lock = Cardinality({i \in 1..Len(handles) : IsPre(p, handles[i].d)})
LockedStay == \A i \in 1..Len(handles) : handles[i].d \in Nodes(tree)
\* what a window lock covered when it was taken is still there
LockedWindow == \A i \in 1..Len(handles) : Covered(tree, handles[i].d, handles[i].b) = handles[i].k
\* an entry is a tomb exactly if its slots have lost their window KV
TombsExact == Tombs(tree) = nowin
\* whatever is found can be used
FoundUsable == \A q \in Probes : LET d == Usable(tree, q) IN
  Len(d) > 1 => LET tail == {p \in Nodes(tree) : IsPre(p, d) /\ Len(p) > Len(d) - W} IN \A p \in tail : ~tree[p].tomb

=============================================================================
