------------------------------ MODULE Generate ------------------------------
(* Synchronous callers: one call after the other, each blocking until every  *)
(* request of it is finished; the results come in the order of the inputs,   *)
(* whatever the order in which they were finished.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS IdLists, MaxCalls, MaxPieces
VARIABLES n, act
vars == <<n>>
Range(s) == {s[i] : i \in 1..Len(s)}
Orders(ids) == {o \in [1..Len(ids) -> 1..Len(ids)] : Range(o) = 1..Len(ids)}
Dup(ids) == Cardinality(Range(ids)) < Len(ids)
Init == n = 0 /\ act = [op |-> "init", args |-> [n |-> 0], res |-> [n |-> 0]]
\* p pieces before each final; a result nobody asked for in between when stray
Gen(ids, batch, o, p, stray) ==
  /\ n < MaxCalls /\ n' = n + 1 /\ (batch \/ Len(ids) = 1)
  /\ act' = [op |-> "gen", args |-> [c |-> n', ids |-> ids, batch |-> batch, order |-> o, pieces |-> p, stray |-> stray],
             res |-> [refused |-> Dup(ids), many |-> batch,
                      got |-> IF Dup(ids) THEN <<>> ELSE [i \in 1..Len(ids) |-> [r |-> ids[i], k |-> p + 1, c |-> n', i |-> i]], left |-> 0]]
Next == \E ids \in IdLists, b, s \in BOOLEAN, p \in 0..MaxPieces : \E o \in Orders(ids) : Gen(ids, b, o, p, s)
=============================================================================
