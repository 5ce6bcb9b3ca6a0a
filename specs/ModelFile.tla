----------------------------- MODULE ModelFile -----------------------------
(* Model files: what a writer was given, what of it has to be found by a     *)
(* reader, now and after the file was cut off or damaged.                    *)
(*   cpp1, cpp2   the C++ writers of format 1 and 2 (everything at once)     *)
(*   pyall        the Python writer, everything at once                      *)
(*   pystream     the Python writer, tensor by tensor into Cap reserved slots*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, Items,      \* Items: sequence of [name, len, size, shape, type, py, cpp, zero]
          Caps, MaxPut, Cuts, Harm
VARIABLES kind, cap, put, seen, failed, ends, begun, act
vars == <<kind, cap, put, seen, failed, ends, begun>>
Py == kind \in {"pyall", "pystream"}
Names == {Items[put[i]].name : i \in 1..Len(put)}
\* can this kind of file hold this tensor
NameFits(it) == it.nul = FALSE /\ it.len <= 255
Fits(it) == (IF Py THEN it.py ELSE it.cpp) /\ (kind = "cpp1" \/ NameFits(it))
\* what readers find: the tensors there were when the file was last finished
Shown == IF seen < 0 THEN <<>> ELSE SubSeq(put, 1, seen)
Elements(s) == IF s = <<>> THEN 1 ELSE LET RECURSIVE P(_) P(t) == IF t = <<>> THEN 1 ELSE Head(t) * P(Tail(t)) IN P(s)
Entry(i) == [i |-> i, name |-> Items[i].name, type |-> Items[i].type,
             shape |-> IF kind = "cpp1" THEN <<Elements(Items[i].shape)>> ELSE Items[i].shape, size |-> Items[i].size]
Found == [k |-> "ok", items |-> [j \in 1..Len(Shown) |-> Entry(Shown[j])]]
Refused == [k |-> "refused"]
Init == /\ kind \in Kinds /\ cap \in (IF kind = "pystream" THEN Caps ELSE {0}) /\ put = <<>> /\ seen = -1 /\ failed = FALSE /\ ends = <<>> /\ begun = FALSE
        /\ act = [op |-> "init", args |-> [c |-> 0], res |-> [k |-> "done"]]
Open == /\ ~begun /\ begun' = TRUE /\ UNCHANGED <<kind, cap, put, seen, failed, ends>>
        /\ act' = [op |-> "open", args |-> [kind |-> kind, cap |-> cap], res |-> [k |-> "done"]]
Live == ~failed /\ (kind = "pystream" \/ seen < 0)
Put(i) ==
  /\ Live /\ Len(put) < MaxPut /\ UNCHANGED <<kind, cap, seen, ends, begun>>
  /\ LET it == Items[i]
         dup == it.name \in Names
         ok == IF kind = "pystream" THEN Fits(it) /\ ~dup /\ Len(put) < cap ELSE ~dup
     IN \* an unfit tensor shows when everything is written
        /\ put' = (IF ok THEN Append(put, i) ELSE put)
        /\ failed' = (~Py /\ dup)                       \* this writer ends its process
        /\ act' = [op |-> "put", args |-> [i |-> i], res |-> IF ok THEN [k |-> "done"] ELSE IF kind = "pyall" THEN [k |-> "any"] ELSE Refused]
Finish ==
  /\ Live /\ Len(ends) < 3 /\ UNCHANGED <<kind, cap, put, begun>>
  /\ LET ok == \A j \in 1..Len(put) : Fits(Items[put[j]]) IN
     /\ seen' = (IF ok THEN Len(put) ELSE -1)
     /\ failed' = ~ok
     /\ ends' = (IF ok THEN Append(ends, Len(put)) ELSE ends)
     /\ act' = [op |-> "finish", args |-> [c |-> 0], res |-> IF ok THEN [k |-> "done"] ELSE Refused]
Same == UNCHANGED vars
Result == IF seen < 0 THEN Refused ELSE Found
Look(m) == Same /\ act' = [op |-> "look", args |-> [mapped |-> m], res |-> Result]
\* a place in the file, counted from something in it; whether anything shown is lost there only the file can tell
Cut(c, m) == /\ seen = Len(put) /\ ~failed /\ Same
             /\ act' = [op |-> "cut", args |-> [at |-> c.at, by |-> c.by, mapped |-> m], res |-> [k |-> "cut", items |-> Found.items]]
\* every prefix of the file
CutAll(m) == /\ seen = Len(put) /\ ~failed /\ Same
             /\ act' = [op |-> "cutall", args |-> [mapped |-> m], res |-> [k |-> "cut", items |-> Found.items]]
\* what the writer's process had brought to the file at any moment before
Died(m) == /\ Py /\ (seen = Len(put) \/ failed) /\ Same
           /\ act' = [op |-> "died", args |-> [mapped |-> m],
                      res |-> [k |-> "images", items |-> [e \in 1..Len(ends) |-> [j \in 1..ends[e] |-> Entry(put[j])]]]]
EntryHarm == {"offset_far", "offset_wrap", "size_huge", "shape_long", "shape_negative", "shape_wrap", "shape_more", "name_huge", "index_short"}
V1Harm == {"magic", "other_format", "index_huge", "table_wrap", "name_huge", "offset_far", "offset_wrap", "size_huge", "index_short", "garbage", "zeros"}
V2Harm == {"magic", "version", "other_format", "count_more", "count_huge", "table_far", "table_wrap", "table_early", "offset_far", "offset_wrap",
           "size_huge", "size_small", "shape_long", "shape_negative", "shape_wrap", "shape_more", "garbage", "zeros"}
Usable(h) == /\ h \in (IF kind = "cpp1" THEN V1Harm ELSE V2Harm)
             /\ (h \in EntryHarm \cup {"size_small"} => Len(put) > 0)
             /\ (h \in {"size_small", "shape_more"} => \E j \in 1..Len(put) : Items[put[j]].size > 0)
             /\ (h \in {"table_early"} => Len(put) > 0)
Damage(h, m) == /\ seen = Len(put) /\ ~failed /\ Usable(h) /\ Same
                /\ act' = [op |-> "damage", args |-> [how |-> h, mapped |-> m], res |-> Refused]
\* other programs may lay the same out differently: something between the header and the table, padding, data in another order, the table behind the data
Moved(h, m) == /\ (h \in {"gap", "table_last"} => kind # "cpp1") /\ seen = Len(put) /\ ~failed /\ Same
               /\ act' = [op |-> "moved", args |-> [how |-> h, mapped |-> m], res |-> Found]
Moves == {"gap", "padded", "backwards", "table_last"}
Steps ==
        \/ \E i \in 1..Len(Items) : Put(i)
        \/ Finish
        \/ \E m \in BOOLEAN : Look(m) \/ (\E c \in Cuts : Cut(c, m)) \/ (\E h \in Harm : Damage(h, m)) \/ (\E h \in Moves : Moved(h, m)) \/ Died(m)
Good == {i \in 1..Len(Items) : Fits(Items[i]) /\ Items[i].name \notin Names}
SimSteps ==
  \E r \in {RandomElement(1..12)} :
     \/ r <= 5 /\ \E i \in Good : Put(i)
     \/ r = 6 /\ (kind = "pystream" \/ RandomElement(1..3) = 1) /\ \E i \in 1..Len(Items) : Put(i)
     \/ r \in 7..8 /\ (Len(put) > 3 \/ RandomElement(1..4) = 1) /\ Finish
     \/ r = 9 /\ \E m \in BOOLEAN : CutAll(m) \/ Look(m)
     \/ r = 10 /\ \E m \in BOOLEAN : Died(m) \/ (\E c \in Cuts : Cut(c, m))
     \/ r = 11 /\ \E m \in BOOLEAN, h \in Harm : Damage(h, m)
     \/ r = 12 /\ \E m \in BOOLEAN, h \in Moves : Moved(h, m)
     \/ \E m \in {RandomElement(BOOLEAN)} : Look(m)
Next == Open \/ (begun /\ Steps)
SimNext == Open \/ (begun /\ SimSteps)
\* what is shown was put, once each, and lies within the file
Consistent == /\ seen <= Len(put)
              /\ \A i, j \in 1..Len(put) : Items[put[i]].name = Items[put[j]].name => i = j
              /\ \A e \in 1..Len(ends) : ends[e] <= Len(put)
=============================================================================
