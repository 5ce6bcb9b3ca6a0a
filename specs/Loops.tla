------------------------------- MODULE Loops -------------------------------
(* What a parallel loop promises: between the call and its return the body   *)
(* runs exactly once for start, start+step, ... below end, and every one of  *)
(* these has finished.                                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES open,      \* loop -> [todo, running]
          gone       \* the pool has been destroyed
lvars == <<open, gone>>
Range(a, b, c) == {i \in a..(b-1) : (i - a) % c = 0}
LInit == open = <<>> /\ gone = FALSE
Push(id, a, b, c) == /\ ~gone /\ id \notin DOMAIN open
                     /\ open' = (id :> [todo |-> Range(a, b, c), running |-> {}]) @@ open /\ UNCHANGED gone
RunIdx(id, i) == /\ id \in DOMAIN open /\ i \in open[id].todo
                 /\ open' = [open EXCEPT ![id].todo = @ \ {i}, ![id].running = @ \cup {i}] /\ UNCHANGED gone
EndIdx(id, i) == /\ id \in DOMAIN open /\ i \in open[id].running
                 /\ open' = [open EXCEPT ![id].running = @ \ {i}] /\ UNCHANGED gone
Done(id) == /\ id \in DOMAIN open /\ open[id] = [todo |-> {}, running |-> {}]
            /\ open' = [x \in DOMAIN open \ {id} |-> open[x]] /\ UNCHANGED gone
Destroy == /\ open = <<>> /\ ~gone /\ gone' = TRUE /\ UNCHANGED open
=============================================================================
