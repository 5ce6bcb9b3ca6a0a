----------------------------- MODULE FrontTrace -----------------------------
(* Runs recorded from the front end under arbitrary schedules.  Events: a    *)
(* call starts or is refused, a message is forwarded, a result is put on the *)
(* wire, a caller gets something, a call is over (all done, or cancelled).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxRid, MaxCall
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ix,
          own,      \* id -> call holding it, 0 if none
          st,       \* call -> none, open, refusing, over
          info,     \* call -> its event
          exp,      \* id -> messages still to be forwarded, in order
          pend,     \* id -> results on their way to the holder
          fins      \* id -> final result was put on the wire / was handed over
tvars == <<tr, ix, own, st, info, exp, pend, fins>>
Ev == Traces[tr].ev
E == Ev[ix]
R == 1..MaxRid
C == 1..MaxCall
Range(s) == {s[i] : i \in 1..Len(s)}
TraceInit == /\ tr \in 1..Len(Traces) /\ ix = 1 /\ own = [r \in R |-> 0] /\ st = [c \in C |-> "none"] /\ info = [c \in C |-> 0]
             /\ exp = [r \in R |-> <<>>] /\ pend = [r \in R |-> <<>>] /\ fins = [r \in R |-> "no"]
Pos(s, r) == CHOOSE i \in 1..Len(s) : s[i] = r
Dup(ids) == Cardinality(Range(ids)) < Len(ids)
Call == /\ E.op = "call" /\ st[E.c] = "none"
        /\ LET bad == Dup(E.ids) \/ \E r \in Range(E.ids) : own[r] # 0
               mine == IF bad THEN {} ELSE Range(E.ids) IN
           /\ st' = [st EXCEPT ![E.c] = IF bad THEN "refusing" ELSE "open"]
           /\ info' = [info EXCEPT ![E.c] = E]
           /\ own' = [r \in R |-> IF r \in mine THEN E.c ELSE own[r]]
           /\ exp' = [r \in R |-> IF r \in mine THEN Append(exp[r], [c |-> E.c, i |-> Pos(E.ids, r), abort |-> FALSE, must |-> TRUE]) ELSE exp[r]]
           /\ pend' = [r \in R |-> IF r \in mine THEN <<>> ELSE pend[r]]
           /\ fins' = [r \in R |-> IF r \in mine THEN "no" ELSE fins[r]]
Refused == E.op = "refused" /\ st[E.c] = "refusing" /\ st' = [st EXCEPT ![E.c] = "over"] /\ UNCHANGED <<own, info, exp, pend, fins>>
Fwd == /\ E.op = "fwd"
       /\ \E p \in 1..Len(exp[E.r]) :
            /\ \A q \in 1..(p - 1) : ~exp[E.r][q].must
            /\ exp[E.r][p].abort = E.abort /\ (E.abort \/ (exp[E.r][p].c = E.c /\ exp[E.r][p].i = E.i))
            /\ exp' = [exp EXCEPT ![E.r] = SubSeq(@, p + 1, Len(@))]
       /\ UNCHANGED <<own, st, info, pend, fins>>
Res == /\ E.op = "res"
       /\ pend' = [pend EXCEPT ![E.r] = Append(@, [k |-> E.k, fin |-> E.fin])]
       /\ fins' = [fins EXCEPT ![E.r] = IF E.fin THEN "sent" ELSE @] /\ UNCHANGED <<own, st, info, exp>>
Got == /\ E.op = "got" /\ st[E.c] = "open" /\ own[E.r] = E.c /\ pend[E.r] # <<>>
       /\ LET q == pend[E.r] x == IF info[E.c].stream THEN Head(q) ELSE q[Len(q)] IN
          /\ x.k = E.k /\ x.fin = E.fin /\ (info[E.c].stream \/ x.fin)
          /\ pend' = [pend EXCEPT ![E.r] = IF info[E.c].stream THEN Tail(@) ELSE <<>>]
          /\ fins' = [fins EXCEPT ![E.r] = IF x.fin THEN "had" ELSE @]
       /\ UNCHANGED <<own, st, info, exp>>
Gone(c) == own' = [r \in R |-> IF own[r] = c THEN 0 ELSE own[r]]
Done == /\ E.op = "done" /\ st[E.c] = "open" /\ \A r \in Range(info[E.c].ids) : fins[r] = "had"
        /\ st' = [st EXCEPT ![E.c] = "over"] /\ Gone(E.c) /\ UNCHANGED <<info, exp, pend, fins>>
\* cancelled: what has no final result yet must be aborted, what just got one may be
Left == /\ E.op = "left" /\ st[E.c] = "open" /\ st' = [st EXCEPT ![E.c] = "over"] /\ Gone(E.c)
        /\ exp' = [r \in R |-> IF own[r] = E.c /\ fins[r] # "had"
                               THEN Append(exp[r], [c |-> E.c, i |-> 0, abort |-> TRUE, must |-> fins[r] = "no"]) ELSE exp[r]]
        /\ UNCHANGED <<info, pend, fins>>
Over == /\ E.op = "over" /\ \A r \in R : own[r] = 0 /\ \A i \in 1..Len(exp[r]) : ~exp[r][i].must
        /\ \A c \in C : st[c] \in {"none", "over"}
        /\ E.left = 0 /\ UNCHANGED <<own, st, info, exp, pend, fins>>
TraceNext == ix <= Len(Ev) /\ ix' = ix + 1 /\ tr' = tr /\ (Call \/ Refused \/ Fwd \/ Res \/ Got \/ Done \/ Left \/ Over)
=============================================================================
