----------------------------- MODULE LayerCache -----------------------------
(* The C++ multi-layer prefix cache.  A promoted sequence has a key and a     *)
(* value block in every layer for every position; sliding-window layers drop  *)
(* the blocks of positions that have left the window of a sequence.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Probes,
          Layers,     \* number of layers
          Sliding,    \* layers with a window
          W,          \* window size (0: no windows)
          Blocks,     \* layer -> blocks per blob
          MaxLive     \* bound: positions stored

VARIABLES store,     \* path <<ns, t1, .., tn>> -> position id
          gone,      \* ids whose blocks the sliding layers have dropped
          peak,      \* layer -> most blocks live at once
          act

vars == <<store, gone, peak, act>>

Path(k, n) == SubSeq(k, 1, n + 1)
Size(k) == Len(k) - 1
Stored(st, k) == LET ok == {n \in 0..Size(k) : n = 0 \/ Path(k, n) \in DOMAIN st}
                 IN CHOOSE n \in ok : \A m \in ok : m <= n
Max(a, b) == IF a > b THEN a ELSE b
Live(st, g, l) == IF l \in Sliding THEN Cardinality(DOMAIN st) - Cardinality(g) ELSE Cardinality(DOMAIN st)
Blobs(pk) == [l \in 1..Layers |-> Max(1, (pk[l] + Blocks[l] - 1) \div Blocks[l])]
(* what a lookup gives: per layer the ids of the matched positions, 0 where the blocks are gone *)
Found(st, g, k) ==
  LET n == Stored(st, k)
  IN [n |-> n, rows |-> [l \in 1..Layers |-> [i \in 1..n |->
        IF l \in Sliding /\ st[Path(k, i)] \in g THEN 0 ELSE st[Path(k, i)]]]]

Init == /\ store = <<>> /\ gone = {}
        /\ peak = [l \in 1..Layers |-> 0]
        /\ act = [op |-> "init", args |-> <<>>, res |-> [x |-> 0]]

Step(op, args, st, g, k) ==
  LET pk == [l \in 1..Layers |-> Max(peak[l], Live(st, g, l))]
  IN /\ store' = st /\ gone' = g /\ peak' = pk
     /\ act' = [op |-> op, args |-> args,
                res |-> [found |-> Found(st, g, k), clash |-> {}, blobs |-> Blobs(pk)]]

(* Compute a sequence: reuse what is found, allocate and fill blocks for the rest, promote. *)
Promote(k) ==
  LET n == Stored(store, k)
      base == Cardinality(DOMAIN store)
      new == {Path(k, i) : i \in (n + 1)..Size(k)}
      st == [p \in DOMAIN store \cup new |->
               IF p \in DOMAIN store THEN store[p] ELSE base + Len(p) - 1 - n]
  IN /\ Cardinality(DOMAIN st) <= MaxLive
     /\ Step("promote", <<k, n, base>>, st, gone, k)

Find(k) == Step("find", <<k>>, store, gone, k)

(* Slide: positions more than W before the end of the matched part leave the window. *)
Slide(k) ==
  LET m == Stored(store, k)
      out == IF W > 0 /\ m > W /\ Size(k) > W
             THEN {store[Path(k, i)] : i \in 1..(m - W)} ELSE {}
  IN Step("slide", <<k, out>>, store, gone \cup out, k)

Next == \/ \E k \in Keys : Promote(k) \/ Slide(k)
        \/ \E k \in Probes : Find(k) \/ Slide(k)

Spec == Init /\ [][Next]_vars
View == <<store, gone, peak>>

R(S) == RandomElement(S)
SimNext == \/ Promote(R(Keys)) \/ Promote(R(Keys)) \/ Slide(R(Keys)) \/ Slide(R(Probes))
           \/ Find(R(Probes)) \/ Find(R(Keys))

(* ---- properties ---- *)
TypeOK == gone \subseteq {store[p] : p \in DOMAIN store}
OneOwner == \A p, q \in DOMAIN store : p # q => store[p] # store[q]
(* Sliding never drops what is inside the window of the sequence slid on. *)
WindowKept == [][act'.op = "slide" =>
                  LET k == act'.args[1]
                      m == Stored(store, k)
                  IN \A i \in 1..m : i > m - W /\ store[Path(k, i)] \notin gone => store[Path(k, i)] \notin gone']_vars
OthersKept == [][\A p \in DOMAIN store : p \in DOMAIN store' /\ store'[p] = store[p]]_vars
=============================================================================
