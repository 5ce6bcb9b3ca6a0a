---------------------------- MODULE PrefixStore ----------------------------
(* The radix tree of the C++ prefix cache, by what it means: the set of      *)
(* stored paths (a namespace and a token sequence).  Each position of a path  *)
(* carries the address it was first stored with; an address is named here by  *)
(* the path it was handed in for, so a lookup must give exactly the addresses *)
(* of the prefixes of what is looked up.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys,      \* what may be inserted: <<namespace, t1, .., tn>>
          Probes,    \* what may be looked up
          Watch,     \* sequence: looked up after every step
          Clears     \* whether the tree may be cleared

VARIABLES store,     \* stored paths
          act

vars == <<store, act>>

Path(k, n) == SubSeq(k, 1, n + 1)
Size(k) == Len(k) - 1
Stored(st, k) == LET ok == {n \in 0..Size(k) : n = 0 \/ Path(k, n) \in st}
                 IN CHOOSE n \in ok : \A m \in ok : m <= n
Found(st, k) == LET n == Stored(st, k)
                IN [n |-> n, of |-> [i \in 1..n |-> Path(k, i)]]
Looks(st) == [i \in 1..Len(Watch) |-> Found(st, Watch[i])]

Init == /\ store = {}
        /\ act = [op |-> "init", args |-> <<>>, res |-> [x |-> 0]]

(* Positions stored already keep their addresses. *)
Insert(k) ==
  LET n == Stored(store, k)
      st == store \cup {Path(k, i) : i \in 1..Size(k)}
  IN /\ store' = st
     /\ act' = [op |-> "insert", args |-> <<k, n>>, res |-> [ok |-> TRUE, looks |-> Looks(st)]]

Find(k) ==
  /\ UNCHANGED store
  /\ act' = [op |-> "find", args |-> <<k>>, res |-> [found |-> Found(store, k)]]

Clear ==
  /\ Clears /\ store # {}
  /\ store' = {}
  /\ act' = [op |-> "clear", args |-> <<>>, res |-> [looks |-> Looks({})]]

Next == \/ \E k \in Keys : Insert(k)
        \/ \E k \in Probes : Find(k)
        \/ Clear

Spec == Init /\ [][Next]_vars
View == store

(* for long random histories *)
SimNext == \/ Insert(RandomElement(Keys))
           \/ Insert(RandomElement(Keys))
           \/ Find(RandomElement(Probes))
           \/ Find(RandomElement(Keys))
           \/ (Clear /\ RandomElement(1..30) = 1)

(* ---- properties ---- *)
PrefixClosed == \A p \in store : Len(p) > 2 => SubSeq(p, 1, Len(p) - 1) \in store
(* Nothing stored is lost, unless everything is dropped. *)
Stable == [][act'.op = "clear" \/ store \subseteq store']_vars
InsertedFound == [][act'.op = "insert" => Stored(store', act'.args[1]) = Size(act'.args[1])]_vars
=============================================================================
