------------------------------- MODULE SymOps -------------------------------
(* Expressions put together through the interface: registers that hold       *)
(* expressions, combined by operators, printed and read again.               *)
EXTENDS Arith
CONSTANTS Regs, Ints, Fps, Texts,     \* Fps: sequence of [v, n, d]; Texts: text -> [values, static]
          Envs, MaxSize
VARIABLES reg, act
vars == <<reg>>
Empty == [values |-> <<>>, static |-> TRUE, size |-> 0]
Init == reg = [r \in Regs |-> Empty] /\ act = [op |-> "new", args |-> [c |-> 0], res |-> [ok |-> TRUE]]
Const(v, size) == [values |-> [i \in 1..Len(Envs) |-> v], static |-> TRUE, size |-> size]
Res(x) == [ok |-> TRUE, values |-> x.values, static |-> x.static]
Set(op, c, x, args) == /\ x.size <= MaxSize
                       /\ reg' = [reg EXCEPT ![c] = x]
                       /\ act' = [op |-> op, args |-> args, res |-> Res(x)]
Var(name) == [values |-> [i \in 1..Len(Envs) |-> IF name \in DOMAIN Envs[i] THEN Envs[i][name] ELSE Err], static |-> FALSE, size |-> 1]
Full(r) == reg[r].size > 0
Next ==
  \/ \E c \in Regs, v \in Ints : Set("int", c, Const(Whole(v), 1), [c |-> c, v |-> v])
  \/ \E c \in Regs, i \in 1..Len(Fps) : Set("fp", c, Const(Make(Fps[i].n, Fps[i].d, "exact"), 1), [c |-> c, v |-> Fps[i].v])
  \/ \E c \in Regs, t \in Texts : Set("text", c, Var(t), [c |-> c, text |-> t])
  \/ \E a, c \in Regs, op \in {"floor", "ceil", "abs"} : Full(a) /\
       Set(op, c, [values |-> [i \in 1..Len(Envs) |-> UnOp(op, reg[a].values[i])], static |-> reg[a].static, size |-> reg[a].size + 1], [a |-> a, c |-> c])
  \/ \E a, b, c \in Regs, op \in {"+", "-", "*", "/", "%"} : Full(a) /\ Full(b) /\
       Set(op, c, [values |-> [i \in 1..Len(Envs) |-> BinOp(op, reg[a].values[i], reg[b].values[i])],
                   static |-> reg[a].static /\ reg[b].static, size |-> reg[a].size + reg[b].size + 1], [a |-> a, b |-> b, c |-> c])
=============================================================================
