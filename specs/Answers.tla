------------------------------ MODULE Answers ------------------------------
(* What the request service promises: under every id the answers of its      *)
(* requests come out in order and once; "nothing" only after a shutdown, and *)
(* then not before everything that was begun has been delivered.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES plan,      \* id -> answers its requests will get
          got,       \* id -> how many of them have been delivered
          due,       \* id -> how many belong to requests a worker has taken up
          stopping   \* it is going down, down, or not up yet
avars == <<plan, got, due, stopping>>
At(f, id, d) == IF id \in DOMAIN f THEN f[id] ELSE d
Put(f, id, v) == (id :> v) @@ f
AInit == plan = <<>> /\ got = <<>> /\ due = <<>> /\ stopping = TRUE
Start == stopping' = FALSE /\ UNCHANGED <<plan, got, due>>
Stop == stopping' = TRUE /\ UNCHANGED <<plan, got, due>>
Send(id, p) == plan' = Put(plan, id, At(plan, id, <<>>) \o p) /\ UNCHANGED <<got, due, stopping>>
Begin(id, n) == due' = Put(due, id, At(due, id, 0) + n) /\ UNCHANGED <<plan, got, stopping>>
Got(id, a) == LET k == At(got, id, 0) + 1 IN
              /\ k <= Len(At(plan, id, <<>>)) /\ a = plan[id][k]
              /\ got' = Put(got, id, k) /\ UNCHANGED <<plan, due, stopping>>
Nothing(id) == /\ stopping /\ At(got, id, 0) >= At(due, id, 0) /\ UNCHANGED avars
=============================================================================
