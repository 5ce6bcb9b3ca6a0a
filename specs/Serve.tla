-------------------------------- MODULE Serve --------------------------------
(* The serving loop: requests arrive and are aborted at any time; each       *)
(* iteration of the scheduler drains the inbox, admits waiting requests,     *)
(* runs one prefill or decode batch on the KV memory (through the prefix     *)
(* cache), and sends results.  KV memory is modelled slot by slot: kv maps a *)
(* slot to the token sequence (prefix) its entry was computed for, so "what  *)
(* a request computes from" is explicit.                                     *)
EXTENDS RadixTree
CONSTANTS Pool,        \* sequence of request kinds [p, max, stop, stream]
          MaxReq,      \* number of requests in a behaviour
          MaxRun, MaxPrefill, MaxTotal,   \* admission limits
          Cap,         \* KV slots
          Ctx,         \* longest context of a request
          V, Eos,      \* vocabulary size, end-of-sequence tokens
          CacheOn, Hybrid, Tracks,   \* prefix cache on; recurrent model with Tracks snapshot slots
          Rest,        \* the rest of an entry that is split counts as used, too
          MaxInbox, Aborts           \* bounds on the environment

VARIABLES s, act

\* Prompt elements >= 100 stand for image tokens of image (element - 100).
Image(p) == \E i \in 1..Len(p) : p[i] >= 100
Touch(tr, q, now) == FollowR(tr, q, now, Rest)
Cacheable(p) == CacheOn /\ ~Image(p)

RECURSIVE Hash(_, _)
Hash(c, h) == IF c = <<>> THEN h ELSE Hash(Tail(c), (h * 5 + Head(c) + 1) % 97)
Tok(c) == Hash(c, 7) % V

Prompt(S, r) == Pool[S.kind[r]].p
Ids(S, r) == Prompt(S, r) \o S.outs[r]
Stops(S, r) == Pool[S.kind[r]].stop \cup Eos
Limit(k) == LET m == Pool[k].max IN IF m < 1 THEN 1 ELSE m
Minn(a, b) == IF a < b THEN a ELSE b
Path(q) == <<0>> \o q
N(S) == Len(S.kind)
Remove(q, r) == SelectSeq(q, LAMBDA x : x /= r)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumOf(Tail(q))
Prune(S) == [S EXCEPT !.snap = @ \cap Nodes(S.tree)]

(* ---------------------------------------------------------------- messages *)
Msg(S, r, fin) == [r |-> r, fin |-> fin, off |-> S.sent[r],
                   ids |-> SubSeq(S.outs[r], S.sent[r] + 1, Len(S.outs[r])),
                   all |-> S.outs[r], prompt |-> Len(Prompt(S, r)), completion |-> Len(S.outs[r])]
Final(S, r, why) == [S EXCEPT !.st[r] = "done", !.why[r] = why, !.fins = Append(@, Msg(S, r, why))]

(* -------------------------------------------------------------- KV memory *)
UsedBy(S) == UNION {Range(S.row[r]) : r \in 1..N(S)}
Free(S) == (1..Cap) \ (UsedBy(S) \cup Stored(S.tree))
\* room for n more slots, evicting from the cache if necessary
Room(S, n) ==
  IF Cardinality(Free(S)) >= n THEN [S |-> S, ok |-> TRUE]
  ELSE LET goal == IF n > Cap \div 10 THEN n ELSE Cap \div 10
           T == Prune([S EXCEPT !.tree = EvictLoop(@, goal, 0)])
       IN [S |-> T, ok |-> Cardinality(Free(T)) >= n]

Unlock(S, r) == IF S.node[r] = <<>> THEN S
                ELSE [S EXCEPT !.tree = LockPath(@, S.node[r], -1), !.node[r] = <<>>]

\* store a sequence and its slots: what is already cached keeps its slots
Store(S, q, slots) ==
  LET a == Aligned(Path(q))
      tr == Touch(S.tree, a, 2 * S.clock)
      d == Deep(tr, a)
      pl == Len(d) - 1
  IN [S |-> [S EXCEPT !.clock = @ + 1,
                      !.tree = IF pl = Len(a) - 1 THEN tr
                               ELSE (a :> [val |-> SubSeq(slots, pl + 1, Len(a) - 1), lock |-> 0,
                                           t |-> 2 * S.clock + 1]) @@ tr],
      n |-> Len(a) - 1]

\* a request leaves: what it computed goes to the cache, the rest is freed
Release(S, r) ==
  LET ids == Ids(S, r)
      n == Len(S.row[r])
      keep == IF Hybrid THEN Minn(n, Len(Prompt(S, r))) ELSE n
      T == IF n > 0 /\ Cacheable(Prompt(S, r))
           THEN Store(S, SubSeq(ids, 1, keep), S.row[r]).S ELSE S
  IN Unlock([T EXCEPT !.row[r] = <<>>], r)

(* ---------------------------------------------------------------- prefill *)
\* the usable cached prefix of each request of the batch, then lock them all
RECURSIVE Lookup(_, _)
Lookup(S, rs) ==
  IF rs = <<>> THEN S
  ELSE LET r == Head(rs)
           p == Prompt(S, r)
           a == Aligned(Path(p))
           tr == Touch(S.tree, a, 2 * S.clock)
           d == Deep(tr, a)
           got == Len(d) - 1
           short == IF got >= Len(p) - 1 THEN (IF Len(p) >= 2 THEN Len(p) - 2 ELSE 0) ELSE got
           hit == IF Hybrid THEN (IF got > 0 /\ d \in S.snap /\ short = got THEN got ELSE 0) ELSE short
           T == IF Len(a) = 1 THEN [S EXCEPT !.hit[r] = 0, !.node[r] = <<>>]
                ELSE [S EXCEPT !.tree = tr, !.clock = @ + 1, !.hit[r] = hit,
                                !.node[r] = IF hit > 0 THEN d ELSE <<>>]
       IN Lookup(IF Cacheable(p) THEN T ELSE [S EXCEPT !.hit[r] = 0, !.node[r] = <<>>], Tail(rs))
RECURSIVE LockAll(_, _)
LockAll(S, rs) == IF rs = <<>> THEN S
                  ELSE LET r == Head(rs) IN
                       LockAll(IF S.node[r] = <<>> THEN S
                               ELSE [S EXCEPT !.tree = LockPath(@, S.node[r], 1)], Tail(rs))
RECURSIVE UnlockAll(_, _)
UnlockAll(S, rs) == IF rs = <<>> THEN S ELSE UnlockAll(Unlock(S, Head(rs)), Tail(rs))

\* give each request its row: the cached slots, then fresh ones; compute
RECURSIVE Compute(_, _, _)
Compute(S, rs, free) ==
  IF rs = <<>> THEN S
  ELSE LET r == Head(rs)
           p == Prompt(S, r)
           h == S.hit[r]
           m == Len(p) - h
           new == Lowest(free, m)
           old == IF h = 0 THEN <<>> ELSE SubSeq(Vals(S.tree, S.node[r]), 1, h)
           T == [S EXCEPT !.row[r] = old \o new,
                          !.kv = [x \in DOMAIN @ \cup Range(new) |->
                                    IF x \in Range(new)
                                    THEN LET i == CHOOSE i \in 1..m : new[i] = x IN SubSeq(p, 1, h + i)
                                    ELSE @[x]]]
       IN Compute(T, Tail(rs), free \ Range(new))

\* snapshot slots are handed out when the batch is allocated
RECURSIVE Lot(_, _, _)
Lot(S, rs, n) == IF rs = <<>> \/ n = 0 \/ ~Hybrid THEN {}
                 ELSE IF Cacheable(Prompt(S, Head(rs))) THEN {Head(rs)} \cup Lot(S, Tail(rs), n - 1)
                 ELSE Lot(S, Tail(rs), n)

\* put the prompts into the cache and read the rows back from it
RECURSIVE Publish(_, _, _)
Publish(S, rs, lot) ==
  IF rs = <<>> THEN S
  ELSE LET r == Head(rs)
           p == Prompt(S, r)
           st == Store(S, p, S.row[r])
           a == Aligned(Path(p))
           T == [st.S EXCEPT !.row[r] = Vals(st.S.tree, a) \o SubSeq(@, st.n + 1, Len(@)),
                             !.tree = Touch(@, a, 2 * st.S.clock), !.clock = @ + 1]
           U == Unlock(T, r)
           W == IF st.n = 0 THEN U ELSE [U EXCEPT !.tree = LockPath(@, a, 1), !.node[r] = a]
           X == IF r \in lot /\ st.n > 0 THEN [W EXCEPT !.snap = @ \cup {a}] ELSE W
       IN Publish(IF Cacheable(p) THEN X ELSE S, Tail(rs), lot)

RECURSIVE Emit(_, _)
Emit(S, rs) ==      \* one token for every request, computed from its KV
  IF rs = <<>> THEN S
  ELSE LET r == Head(rs) IN
       Emit([S EXCEPT !.outs[r] = Append(@, Tok(S.kv[S.row[r][Len(S.row[r])]])),
                      !.used = @ + 1], Tail(rs))

Why(S, r) == IF S.outs[r][Len(S.outs[r])] \in Stops(S, r) THEN "eos"
             ELSE IF Len(S.outs[r]) >= Limit(S.kind[r]) \/ Len(Ids(S, r)) >= Ctx THEN "length" ELSE ""

\* leave the batch: the finished ones are answered and released
RECURSIVE Settle(_, _)
Settle(S, rs) ==
  IF rs = <<>> THEN S
  ELSE LET r == Head(rs)
           w == Why(S, r)
           T == Release(Final(S, r, w), r)
       IN Settle(IF w = "" THEN [S EXCEPT !.running = Append(@, r), !.st[r] = "run"]
                 ELSE [T EXCEPT !.used = @ - (Len(Ids(S, r)) - S.hit[r])], Tail(rs))

SubHits(S, rs) == [S EXCEPT !.used = @ - SumOf([i \in 1..Len(rs) |-> S.hit[rs[i]]])]
Plain(q) == [i \in 1..Len(q) |-> IF q[i] >= 100 THEN 9 ELSE q[i]]
\* what each row of the batch computes from: the KV of every position, whose
\* sampling parameters it uses, and the tokens its penalties count
Seen(S, rs) == [i \in 1..Len(rs) |->
  [r |-> rs[i], ctx |-> [j \in 1..Len(S.row[rs[i]]) |-> S.kv[S.row[rs[i]][j]]],
   par |-> rs[i], hist |-> Plain(Ids(S, rs[i]))]]
Batch(mode, rs) == [mode |-> mode, rids |-> rs]

RECURSIVE Decode(_)
Decode(S) ==
  IF S.running = <<>> THEN [S EXCEPT !.batch = Append(@, Batch("none", <<>>))]
  ELSE LET rs == S.running
           rm == Room(S, Len(rs))
           R == rm.S
           v == rs[Len(rs)]
           new == Lowest(Free(R), Len(rs))
           A == [R EXCEPT !.row = [r \in DOMAIN @ |-> IF \E i \in 1..Len(rs) : rs[i] = r
                                    THEN Append(@[r], new[CHOOSE i \in 1..Len(rs) : rs[i] = r]) ELSE @[r]],
                          !.kv = [x \in DOMAIN @ \cup Range(new) |->
                                   IF x \in Range(new) THEN Ids(R, rs[CHOOSE i \in 1..Len(rs) : new[i] = x]) ELSE @[x]],
                          !.batch = Append(@, Batch("decode", rs))]
       IN IF rm.ok THEN Settle([Emit([A EXCEPT !.seen = Seen(A, rs)], rs) EXCEPT !.running = <<>>], rs)
          ELSE \* out of memory: the newest request is ended, the others go on
               Decode([Release(Final(R, v, "abort"), v) EXCEPT !.running = Remove(@, v),
                          !.used = @ - (Len(Ids(R, v)) - R.hit[v])])

RECURSIVE Extend(_, _)
Extend(S, rs) ==
  IF rs = <<>> THEN Decode(S)
  ELSE LET L == LockAll(Lookup(S, rs), rs)
           need == SumOf([i \in 1..Len(rs) |-> Len(Prompt(L, rs[i])) - L.hit[rs[i]]])
           rm == Room(L, need)
           C == Compute(rm.S, rs, Free(rm.S))
           E == Emit(Publish([C EXCEPT !.seen = Seen(C, rs), !.batch = Append(@, Batch("extend", rs))], rs,
                             Lot(C, rs, Tracks - Cardinality(C.snap))), rs)
           v == rs[Len(rs)]
           U == UnlockAll(rm.S, rs)
           back == [U EXCEPT !.used = @ - Len(Prompt(S, v))]
       IN IF rm.ok THEN Settle(SubHits(E, rs), rs)
          ELSE IF Len(rs) > 1 \/ S.running /= <<>>
               THEN Extend([back EXCEPT !.pending = <<v>> \o @], SubSeq(rs, 1, Len(rs) - 1))
               ELSE [Final(back, v, "abort") EXCEPT !.batch = Append(@, Batch("none", <<>>))]

(* -------------------------------------------------------------- admission *)
TooLong(p) == p = <<>> \/ Len(p) > MaxPrefill \/ Len(p) > MaxTotal \/ Len(p) >= Ctx
RECURSIVE Recv(_, _)
Recv(S, box) ==
  IF box = <<>> THEN S
  ELSE LET m == Head(box) r == m.r IN
       Recv(IF m.k = "req" THEN [S EXCEPT !.waiting = Append(@, r), !.st[r] = "wait"]
            ELSE IF S.st[r] \in {"wait"}
                 THEN [S EXCEPT !.waiting = Remove(@, r), !.pending = Remove(@, r), !.st[r] = "gone"]
            ELSE IF S.st[r] = "run" THEN [S EXCEPT !.st[r] = "stop"]
            ELSE S, Tail(box))
RECURSIVE Accept(_, _)
Accept(S, ws) ==
  IF ws = <<>> THEN [S EXCEPT !.waiting = <<>>]
  ELSE LET r == Head(ws) IN
       Accept(IF TooLong(Prompt(S, r)) THEN Final(S, r, "abort")
              ELSE [S EXCEPT !.pending = Append(@, r)], Tail(ws))
RECURSIVE Reap(_, _)
Reap(S, rs) ==    \* aborted requests leave
  IF rs = <<>> THEN S
  ELSE LET r == Head(rs) IN
       Reap(IF S.st[r] = "stop"
            THEN [Release(S, r) EXCEPT !.st[r] = "gone", !.running = Remove(@, r),
                     !.used = @ - (Len(Ids(S, r)) - S.hit[r])]
            ELSE S, Tail(rs))
RECURSIVE Admit(_, _, _, _)
Admit(S, ps, budget, new) ==
  IF ps = <<>> THEN [S |-> S, new |-> new]
  ELSE LET r == Head(ps)
           n == Len(Prompt(S, r))
       IN IF Len(S.running) + Len(new) < MaxRun /\ S.used + n <= MaxTotal /\ n <= budget
          THEN Admit([S EXCEPT !.used = @ + n, !.pending = Remove(@, r)], Tail(ps), budget - n, Append(new, r))
          ELSE Admit(S, Tail(ps), budget, new)

\* intermediate results of streaming requests
RECURSIVE Stream(_, _, _)
Stream(S, rs, out) ==
  IF rs = <<>> THEN [S |-> S, out |-> out]
  ELSE LET r == Head(rs) IN
       IF Pool[S.kind[r]].stream /\ S.sent[r] < Len(S.outs[r])
       THEN Stream([S EXCEPT !.sent[r] = Len(S.outs[r])], Tail(rs), Append(out, Msg(S, r, "")))
       ELSE Stream(S, Tail(rs), out)

Step(S0) ==
  LET S1 == Reap(Accept(Recv([S0 EXCEPT !.inbox = <<>>], S0.inbox), Recv(S0, S0.inbox).waiting), S0.running)
      ad == Admit(S1, S1.pending, MaxPrefill, <<>>)
      S2 == Extend(ad.S, ad.new)
      st == Stream(S2, S2.running, <<>>)
  IN [S |-> [st.S EXCEPT !.fins = <<>>, !.batch = <<>>, !.seen = <<>>],
      msgs |-> st.out \o S2.fins, batch |-> S2.batch[Len(S2.batch)], seen |-> S2.seen]

Live(S) == {r \in 1..N(S) : S.st[r] \in {"wait", "run", "stop"}}
Sizes(S) == [kv_free |-> Cardinality(Free(S)), evictable |-> Evictable(S.tree), protected |-> Protected(S.tree),
             slots_free |-> MaxRun - Len(S.running), snaps |-> Cardinality(S.snap), used |-> S.used]

Empty == <<>>
Init == /\ s = [kind |-> Empty, st |-> Empty, why |-> Empty, outs |-> Empty, sent |-> Empty, hit |-> Empty,
                node |-> Empty, row |-> Empty, inbox |-> Empty, waiting |-> Empty, pending |-> Empty,
                running |-> Empty, fins |-> Empty, batch |-> Empty, seen |-> Empty, used |-> 0,
                tree |-> Empty, clock |-> 0, kv |-> [x \in {} |-> Empty], snap |-> {}, ab |-> 0]
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]

Submit(k) ==
  /\ N(s) < MaxReq /\ Len(s.inbox) < MaxInbox
  /\ s' = [s EXCEPT !.kind = Append(@, k), !.st = Append(@, "inbox"), !.why = Append(@, ""), !.outs = Append(@, <<>>),
                    !.sent = Append(@, 0), !.hit = Append(@, 0), !.node = Append(@, <<>>), !.row = Append(@, <<>>),
                    !.inbox = Append(@, [k |-> "req", r |-> N(s) + 1])]
  /\ act' = [op |-> "submit", args |-> [r |-> N(s) + 1, p |-> Pool[k].p, max |-> Pool[k].max,
                                        stop |-> Pool[k].stop, stream |-> Pool[k].stream], res |-> [n |-> 0]]
Abort(r) ==
  /\ s.ab < Aborts /\ r \in 1..N(s) /\ Len(s.inbox) < MaxInbox
  /\ s' = [s EXCEPT !.inbox = Append(@, [k |-> "abort", r |-> r]), !.ab = @ + 1]
  /\ act' = [op |-> "abort", args |-> [r |-> r], res |-> [n |-> 0]]
Iterate ==
  LET x == Step(s) IN
  /\ s.inbox /= <<>> \/ Live(s) /= {}
  /\ s' = x.S
  /\ act' = [op |-> "iterate", args |-> [n |-> 0],
             res |-> [msgs |-> x.msgs, batch |-> x.batch, seen |-> x.seen,
                      hits |-> IF x.batch.mode = "extend" THEN [i \in 1..Len(x.batch.rids) |-> x.S.hit[x.batch.rids[i]]] ELSE <<>>,
                      idle |-> x.batch.mode = "none"] @@ Sizes(x.S)]

Next == \/ \E k \in 1..Len(Pool) : Submit(k)
        \/ \E r \in 1..MaxReq : Abort(r)
        \/ Iterate
\* one random behaviour: 3 in 10 steps submit, 1 in 10 aborts, the others iterate
CanSubmit == N(s) < MaxReq /\ Len(s.inbox) < MaxInbox
CanAbort == s.ab < Aborts /\ N(s) > 0 /\ Len(s.inbox) < MaxInbox
SimNext == \E c \in {RandomElement(1..10)}, k \in {RandomElement(1..Len(Pool))}, r \in {RandomElement(1..MaxReq)} :
  IF c <= 3 /\ CanSubmit THEN Submit(k)
  ELSE IF c = 4 /\ CanAbort THEN Abort(1 + (r % N(s)))
  ELSE IF s.inbox /= <<>> \/ Live(s) /= {} THEN Iterate
  ELSE CanSubmit /\ Submit(k)
Fair == Init /\ [][Next]_<<s, act>> /\ WF_<<s, act>>(Iterate)

View == [[s EXCEPT !.tree = Empty, !.clock = 0,
                   !.kv = [x \in (UsedBy(s) \cup Stored(s.tree)) |-> s.kv[x]]] EXCEPT !.seen = <<Rank(s.tree), [r \in 1..N(s) |-> s.node[r]]>>]

(* ------------------------------------------------------------- properties *)
\* R01: a request reads, at every position, the KV computed for its own tokens
OwnContext == \A i \in 1..Len(s.running) : LET r == s.running[i] IN
  \A j \in 1..Len(s.row[r]) : s.kv[s.row[r][j]] = SubSeq(Ids(s, r), 1, j)
CacheTrue == \A p \in Nodes(s.tree) : \A j \in 1..Len(s.tree[p].val) :
  s.kv[s.tree[p].val[j]] = SubSeq(p, 2, Len(p) - Len(s.tree[p].val) + j)
\* R01: tokens are those of a run without cache
RECURSIVE Ref(_, _)
Ref(c, n) == IF n = 0 THEN <<>> ELSE <<Tok(c)>> \o Ref(Append(c, Tok(c)), n - 1)
SameTokens == \A r \in 1..N(s) : s.outs[r] = Ref(Prompt(s, r), Len(s.outs[r]))
\* R02
Running(r) == \E i \in 1..Len(s.running) : s.running[i] = r
RowsOnlyRunning == \A r \in 1..N(s) : ~Running(r) => (s.row[r] = <<>> /\ s.node[r] = <<>>)
Disjoint == \A p, q \in 1..N(s) : p /= q =>
  (Range(s.row[p]) \cap Range(s.row[q])) \subseteq Stored(s.tree)
SharedLocked == \A r \in 1..N(s) : \A j \in 1..Len(s.row[r]) : s.row[r][j] \in Stored(s.tree) =>
  \E p \in Nodes(s.tree) : s.row[r][j] \in Range(s.tree[p].val) /\ s.tree[p].lock > 0
Locks == \A p \in Nodes(s.tree) : s.tree[p].lock =
  Cardinality({r \in 1..N(s) : s.node[r] /= <<>> /\ IsPre(p, s.node[r])})
\* S01
Limits == Len(s.running) <= MaxRun
UsedExact == s.used = SumOf([i \in 1..Len(s.running) |->
  Len(Ids(s, s.running[i])) - s.hit[s.running[i]]])
\* S02
Finished(r) == s.st[r] = "done"
FinishRight == \A r \in 1..N(s) : Finished(r) /\ s.why[r] /= "abort" =>
  LET o == s.outs[r] n == Len(o) IN
    /\ n > 0 /\ \A j \in 1..(n - 1) : o[j] \notin Stops(s, r)
    /\ n <= Limit(s.kind[r])
    /\ (s.why[r] = "eos") = (o[n] \in Stops(s, r))
NoOverrun == \A r \in 1..N(s) : s.st[r] = "run" =>
  Len(s.outs[r]) < Limit(s.kind[r]) /\ \A j \in 1..Len(s.outs[r]) : s.outs[r][j] \notin Stops(s, r)
SentBound == \A r \in 1..N(s) : s.sent[r] <= Len(s.outs[r])
\* S03
AbortedOut == \A r \in 1..N(s) : s.st[r] \in {"gone", "done"} =>
  ~Running(r) /\ \A i \in 1..Len(s.pending) : s.pending[i] /= r
\* R03
SnapsCached == s.snap \subseteq Nodes(s.tree) /\ Cardinality(s.snap) <= Tracks
\* S04
Quiet == \A r \in 1..N(s) : s.st[r] \in {"done", "gone"} \/ (s.st[r] = "inbox" /\ s.inbox /= <<>>)
Served == []<>(s.inbox = <<>> /\ \A r \in 1..N(s) : s.st[r] \in {"done", "gone"})
=============================================================================
