------------------------------ MODULE SlotPool ------------------------------
(* Slot allocators at the level their users see: units (slots or pages) are  *)
(* taken in blocks and given back in pieces, at once or as a batch.  Which   *)
(* unit is handed out is left open here (SlotTrace checks the actual ones);  *)
(* this module fixes when an allocation succeeds and what is available.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Cap,        \* capacity in units
          PS,         \* tokens per unit (page size)
          MaxTake,    \* largest request, in tokens
          MaxLive,    \* bound on live allocations
          Batch,      \* TRUE: the pool offers batched frees
          HasClear    \* TRUE: the pool can be cleared

VARIABLES avail,      \* units free
          held,       \* sequence of units still held per live allocation
          pend,       \* units given back inside an open batch
          batch,      \* a batch is open
          act
vars == <<avail, held, pend, batch>>

Units(n) == (n + PS - 1) \div PS
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
DropAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))

Init == /\ avail = Cap /\ held = <<>> /\ pend = 0 /\ batch = FALSE
        /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [avail |-> Cap * PS]]

Alloc(n) ==
  LET u == Units(n)
      ok == u <= avail
  IN /\ Len(held) < MaxLive \/ ~ok
     /\ avail' = IF ok THEN avail - u ELSE avail
     /\ held' = IF ok /\ u > 0 THEN Append(held, u) ELSE held
     /\ UNCHANGED <<pend, batch>>
     /\ act' = [op |-> "alloc", args |-> [n |-> n],
                res |-> [ok |-> ok, got |-> IF ok THEN n ELSE 0, avail |-> avail' * PS]]

(* k units of the i-th live allocation, from its front or back *)
Free(i, k, side) ==
  /\ i \in 1..Len(held) /\ k \in 1..held[i]
  /\ (k = held[i]) => side = "front"
  /\ held' = IF k = held[i] THEN DropAt(held, i) ELSE [held EXCEPT ![i] = @ - k]
  /\ IF batch THEN pend' = pend + k /\ avail' = avail
              ELSE avail' = avail + k /\ pend' = pend
  /\ UNCHANGED batch
  /\ act' = [op |-> "free", args |-> [i |-> i, k |-> k, side |-> side],
             res |-> [avail |-> avail' * PS]]

Begin == /\ Batch /\ ~batch /\ batch' = TRUE /\ UNCHANGED <<avail, held, pend>>
         /\ act' = [op |-> "begin", args |-> [n |-> 0], res |-> [avail |-> avail * PS]]
End == /\ batch /\ batch' = FALSE /\ avail' = avail + pend /\ pend' = 0 /\ UNCHANGED held
       /\ act' = [op |-> "end", args |-> [n |-> 0], res |-> [avail |-> avail' * PS]]
Merge == /\ Batch /\ UNCHANGED vars
         /\ act' = [op |-> "merge", args |-> [n |-> 0], res |-> [avail |-> avail * PS]]
Clear == /\ HasClear /\ avail' = Cap /\ held' = <<>> /\ pend' = 0 /\ batch' = FALSE
         /\ act' = [op |-> "clear", args |-> [n |-> 0], res |-> [avail |-> Cap * PS]]

Next == \/ \E n \in 0..MaxTake : Alloc(n)
        \/ \E i \in 1..MaxLive : \E k \in 1..Cap : \E s \in {"front", "back"} : Free(i, k, s)
        \/ Begin \/ End \/ Merge \/ Clear

Conserved == avail + pend + Sum(held) = Cap
NoPendOutsideBatch == batch \/ pend = 0
=============================================================================
