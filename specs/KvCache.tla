------------------------------ MODULE KvCache ------------------------------
(* The key/value cache of the C++ models: for each layer a fixed buffer of   *)
(* rows and a count of rows in use; caches opened on part of another one.    *)
(* A row is named by a tag; 0 is a row nobody wrote.                         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Max, Layers,     \* rows per layer, number of layers
          Direct,          \* TRUE: rows are written in place (a location is handed out); FALSE: appended
          Sizes, Tags,     \* rows per append; largest tag
          MaxSubs
VARIABLES buf, cnt, subs, next,
          came,            \* layer -> what was appended since it was last emptied or cut back (for the invariants only)
          act
vars == <<buf, cnt, subs, next>>
L == 1..Layers
-----------------------------------------------------------------------------
Rows(n) == [i \in 1..n |-> ((next + i - 2) % Tags) + 1]
Put(b, at, rows) == [i \in 1..Max |-> IF i > at /\ i <= at + Len(rows) THEN rows[i - at] ELSE b[i]]
View(b, n) == SubSeq(b, 1, n)
Res(ok, rows, b, c, s) == [ok |-> ok, rows |-> rows, cnt |-> c, views |-> [l \in L |-> View(b[l], c[l])],
                           subs |-> [k \in 1..Len(s) |-> s[k].cnt]]
Did(op, args, ok, rows) == act' = [op |-> op, args |-> args, res |-> Res(ok, rows, buf', cnt', subs')]

Init == /\ buf = [l \in L |-> [i \in 1..Max |-> 0]] /\ cnt = [l \in L |-> 0] /\ subs = <<>> /\ next = 1
        /\ came = [l \in L |-> <<>>]
        /\ act = [op |-> "init", args |-> <<>>, res |-> [x |-> 0]]

Add(l, n, fits) ==
  /\ buf' = IF fits THEN [buf EXCEPT ![l] = Put(@, cnt[l], Rows(n))] ELSE buf
  /\ cnt' = IF fits THEN [cnt EXCEPT ![l] = @ + n] ELSE cnt
  /\ came' = IF fits THEN [came EXCEPT ![l] = @ \o Rows(n)] ELSE came
  /\ next' = ((next + n - 1) % Tags) + 1 /\ UNCHANGED subs
AppendRows(l, n) ==
  LET fits == cnt[l] + n <= Max IN
  /\ Add(l, n, fits)
  /\ Did("append", <<l, Rows(n)>>, fits, IF fits THEN View(buf'[l], cnt'[l]) ELSE <<>>)
\* places for rows that are written later, before anything is read
Reserve(l, n) ==
  LET fits == cnt[l] + n <= Max IN
  /\ Direct /\ Add(l, n, fits)
  /\ act' = [op |-> "reserve", args |-> <<l, Rows(n)>>, res |-> [ok |-> fits, cnt |-> cnt']]
\* cut back to n rows in every layer; to none: clear
Cut(n) == /\ \A l \in L : n <= cnt[l]
          /\ cnt' = [l \in L |-> n] /\ came' = [l \in L |-> SubSeq(came[l], 1, n)] /\ UNCHANGED <<buf, subs, next>>
          /\ Did("cut", <<n>>, TRUE, <<>>)
Clear == /\ cnt' = [l \in L |-> 0] /\ came' = [l \in L |-> <<>>] /\ UNCHANGED <<buf, subs, next>>
         /\ Did("clear", <<0>>, TRUE, <<>>)
\* a cache over the rows from start on, of which len count as there
OpenSub(start, len) ==
  /\ ~Direct /\ Len(subs) < MaxSubs /\ start + len <= Max
  /\ subs' = subs \o <<[start |-> start, len |-> len, cnt |-> [l \in L |-> len]]>>
  /\ UNCHANGED <<buf, cnt, next, came>>
  /\ Did("sub", <<start, len>>, TRUE, <<>>)
SubAppend(k, l, n) ==
  LET s == subs[k]
      fits == s.start + s.cnt[l] + n <= Max IN
  /\ buf' = IF fits THEN [buf EXCEPT ![l] = Put(@, s.start + s.cnt[l], Rows(n))] ELSE buf
  /\ subs' = IF fits THEN [subs EXCEPT ![k].cnt[l] = @ + n] ELSE subs
  /\ next' = ((next + n - 1) % Tags) + 1 /\ UNCHANGED <<cnt, came>>
  /\ Did("subappend", <<k, l, Rows(n)>>, fits, IF fits THEN SubSeq(buf'[l], s.start + 1, s.start + subs'[k].cnt[l]) ELSE <<>>)
SubClear(k) ==
  /\ subs' = [subs EXCEPT ![k].cnt = [l \in L |-> subs[k].len]] /\ UNCHANGED <<buf, cnt, next, came>>
  /\ Did("subclear", <<k>>, TRUE, <<>>)
DropSub == /\ subs # <<>> /\ subs' = SubSeq(subs, 1, Len(subs) - 1) /\ UNCHANGED <<buf, cnt, next, came>>
           /\ Did("drop", <<Len(subs)>>, TRUE, <<>>)

Next == \/ \E l \in L, n \in Sizes : AppendRows(l, n)
        \/ \E l \in L, n \in Sizes : Reserve(l, n)
        \/ \E n \in 1..Max : Cut(n)
        \/ Clear
        \/ \E a \in 0..Max - 1, n \in 0..Max : OpenSub(a, n)
        \/ \E k \in 1..Len(subs), l \in L, n \in Sizes : SubAppend(k, l, n)
        \/ \E k \in 1..Len(subs) : SubClear(k)
        \/ DropSub
Spec == Init /\ [][Next]_<<vars, came, act>>

R(S) == RandomElement(S)
SimNext ==
  \E d \in {R(1..20)} :
    \/ (d <= 9 \/ (subs = <<>> /\ d <= 14)) /\ \E l \in {R(L)}, n \in {R(Sizes)} : IF Direct /\ d > 6 THEN Reserve(l, n) ELSE AppendRows(l, n)
    \/ d \in 10..14 /\ subs # <<>> /\ \E k \in {R(1..Len(subs))}, l \in {R(L)}, n \in {R(Sizes)} : SubAppend(k, l, n)
    \/ d = 15 /\ Clear
    \/ d = 16 /\ \E n \in {R(1..Max)} : IF \A l \in L : n <= cnt[l] THEN Cut(n) ELSE Clear
    \/ d \in 17..18 /\ (IF Direct \/ Len(subs) >= MaxSubs THEN \E l \in {R(L)}, n \in {R(Sizes)} : AppendRows(l, n)
                        ELSE \E a \in {R(0..Max - 1)} : \E n \in {R(0..Max - a)} : OpenSub(a, n))
    \/ d \in 19..20 /\ (IF subs = <<>> THEN \E l \in {R(L)}, n \in {R(Sizes)} : AppendRows(l, n)
                        ELSE IF d = 19 THEN \E k \in {R(1..Len(subs))} : SubClear(k) ELSE DropSub)
-----------------------------------------------------------------------------
Within == /\ \A l \in L : cnt[l] <= Max /\ Len(came[l]) = cnt[l]
          /\ \A k \in 1..Len(subs), l \in L : subs[k].len <= subs[k].cnt[l] /\ subs[k].start + subs[k].cnt[l] <= Max
\* without a cache opened on it a reader gets what was appended, in order
InOrder == MaxSubs = 0 => \A l \in L : View(buf[l], cnt[l]) = came[l]
\* rows before the start of a sub cache and those it found there are never changed by it
Untouched == [][act'.op = "subappend" =>
                  \A l \in L : \A i \in 1..Max : (l # act'.args[2] \/ i <= subs[act'.args[1]].start + subs[act'.args[1]].len) => buf'[l][i] = buf[l][i]]_<<vars, came, act>>
Refused == [][~act'.res.ok => UNCHANGED <<buf, cnt, subs>>]_<<vars, came, act>>
=============================================================================
