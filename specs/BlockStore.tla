----------------------------- MODULE BlockStore -----------------------------
(* The block allocator of the C++ prefix cache.  Blocks are named by handles; *)
(* which address a handle gets is the allocator's choice, but no two live     *)
(* handles share memory, so the contents written through one stay.  Blobs are *)
(* added only when every block of the existing ones is in use.                *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N,        \* handles 1..N
          Blocks,   \* sequence: blocks per blob of each pool; handle h lives in pool ((h-1) % Len(Blocks)) + 1
          Tags,     \* contents
          Bulk      \* how many blocks a step may allocate / free at once

VARIABLES mem,      \* live handle -> contents (0: not written yet)
          peak,     \* pool -> most blocks live at once so far
          act

vars == <<mem, peak, act>>

Pools == 1..Len(Blocks)
Pool(h) == ((h - 1) % Len(Blocks)) + 1
Live(m, p) == Cardinality({h \in DOMAIN m : Pool(h) = p})
Max(a, b) == IF a > b THEN a ELSE b
Blobs(pk) == [p \in Pools |-> Max(1, (pk[p] + Blocks[p] - 1) \div Blocks[p])]
Written(m) == {h \in DOMAIN m : m[h] # 0}
Res(m, pk) == [mem |-> [h \in 1..N |-> IF h \in Written(m) THEN m[h] ELSE 0], clash |-> {}, blobs |-> Blobs(pk)]

Init == /\ mem = <<>>
        /\ peak = [p \in Pools |-> 0]
        /\ act = [op |-> "init", args |-> <<>>, res |-> [x |-> 0]]

Step(op, args, m) ==
  LET pk == [p \in Pools |-> Max(peak[p], Live(m, p))]
  IN /\ mem' = m /\ peak' = pk
     /\ act' = [op |-> op, args |-> args, res |-> Res(m, pk)]

Range(h, k) == {x \in 1..N : h <= x /\ x < h + k}

Alloc(h, k) ==
  LET new == Range(h, k) \ DOMAIN mem
  IN /\ new # {}
     /\ Step("alloc", <<new>>, [x \in DOMAIN mem \cup new |-> IF x \in new THEN 0 ELSE mem[x]])
Free(h, k) ==
  LET gone == Range(h, k) \cap DOMAIN mem
  IN /\ gone # {}
     /\ Step("free", <<gone>>, [x \in DOMAIN mem \ gone |-> mem[x]])
Write(h, k, t) ==
  LET put == Range(h, k) \cap DOMAIN mem
  IN /\ put # {}
     /\ Step("write", <<put, t>>, [x \in DOMAIN mem |-> IF x \in put THEN ((t + x) % 250) + 1 ELSE mem[x]])
Hint(op, h, k) ==
  LET on == Range(h, k) \cap DOMAIN mem
  IN /\ on # {}
     /\ Step(op, <<on>>, mem)

Next == \E h \in 1..N, k \in Bulk :
          \/ Alloc(h, k) \/ Free(h, k)
          \/ \E t \in Tags : Write(h, k, t)
          \/ Hint("purge", h, k) \/ Hint("prefetch", h, k)

Spec == Init /\ [][Next]_vars
View == <<mem, peak>>

R(S) == RandomElement(S)
SimNext ==
  \/ Alloc(R(1..N), R(Bulk))
  \/ Alloc(R(1..N), R(Bulk))
  \/ Free(R(1..N), R(Bulk))
  \/ Write(R(1..N), R(Bulk), R(Tags))
  \/ Write(1, N, R(Tags))
  \/ Hint(R({"purge", "prefetch"}), R(1..N), R(Bulk))
  \/ (R(1..12) = 1 /\ Free(1, N))
  \/ (R(1..12) = 1 /\ Alloc(1, N))

(* ---- properties ---- *)
TypeOK == DOMAIN mem \subseteq 1..N /\ \A p \in Pools : Live(mem, p) <= peak[p]
(* Contents of a live block change only by writing to it. *)
Kept == [][\A h \in DOMAIN mem \cap DOMAIN mem' : mem'[h] # mem[h] => act'.op = "write" /\ h \in act'.args[1]]_vars
Enough == \A p \in Pools : Blobs(peak)[p] * Blocks[p] >= Live(mem, p)
=============================================================================
