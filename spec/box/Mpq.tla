-------------------------------- MODULE Mpq --------------------------------
(* The multi-producer queue: a stack of items, the newest first, taken as a whole. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES stk, ops
qvars == <<stk, ops>>
MpqInit == stk = <<>> /\ ops = {}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
B(c) == IF c THEN 1 ELSE 0
Call(h, op, x) == /\ \A o \in ops : o.h # h
                  /\ ops' = ops \cup {[h |-> h, op |-> op, x |-> x, done |-> FALSE, v |-> 0, l |-> <<>>]}
Done(o, v, l) == ops' = (ops \ {o}) \cup {[o EXCEPT !.done = TRUE, !.v = v, !.l = l]}
Lin(o) ==
    /\ ~o.done
    /\ CASE o.op \in {"push", "many"} -> stk' = Rev(o.x) \o stk /\ Done(o, B(stk = <<>>), <<>>)
         [] o.op = "rev" -> stk' = o.x \o stk /\ Done(o, B(stk = <<>>), <<>>)
         [] o.op = "pop" -> stk' = <<>> /\ Done(o, 0, Rev(stk))
         [] o.op = "poprev" -> stk' = <<>> /\ Done(o, 0, stk)
         [] o.op = "empty" -> UNCHANGED stk /\ Done(o, B(stk = <<>>), <<>>)
Ret(o) == o \in ops /\ o.done /\ ops' = ops \ {o}
=============================================================================
