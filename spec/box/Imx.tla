-------------------------------- MODULE Imx --------------------------------
(* InterruptibleMutex. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES holder, wq, ops, woken
\* holder: thread or -1. wq: waiting threads in order. woken: the holder was interrupted.
xvars == <<holder, wq, ops, woken>>
ImxInit == holder = -1 /\ wq = <<>> /\ ops = {} /\ woken = FALSE
B(c) == IF c THEN 1 ELSE 0
Call(h, op) == /\ \A o \in ops : o.h # h
               /\ ops' = ops \cup {[h |-> h, op |-> op, ph |-> 0, v |-> 0]}
Upd(o, ph, v) == ops' = (ops \ {o}) \cup {[o EXCEPT !.ph = ph, !.v = v]}
LockTake(o) == /\ o.op = "lock" /\ o.ph = 0 /\ holder = -1
               /\ holder' = o.h /\ woken' = FALSE /\ Upd(o, 9, 1) /\ UNCHANGED wq
\* ph 1: in the queue
LockWait(o) == /\ o.op = "lock" /\ o.ph = 0 /\ holder # -1
               /\ wq' = Append(wq, o.h) /\ Upd(o, 1, 0) /\ UNCHANGED <<holder, woken>>
TryLin(o) == /\ o.op = "try" /\ o.ph = 0
             /\ IF holder = -1 THEN holder' = o.h /\ woken' = FALSE /\ Upd(o, 9, 1)
                ELSE UNCHANGED <<holder, woken>> /\ Upd(o, 9, 0)
             /\ UNCHANGED wq
UnlockLin(o) ==
    /\ o.op = "unlock" /\ o.ph = 0 /\ holder = o.h
    /\ IF wq = <<>>
       THEN holder' = -1 /\ woken' = FALSE /\ Upd(o, 9, 0) /\ UNCHANGED wq
       ELSE /\ holder' = Head(wq) /\ wq' = Tail(wq)
            /\ woken' = FALSE
            /\ \E g \in ops : /\ g.h = Head(wq) /\ g.op = "lock"
                              /\ ops' = (ops \ {o, g}) \cup {[o EXCEPT !.ph = 9], [g EXCEPT !.ph = 9, !.v = 1]}
Lin(o) == LockTake(o) \/ LockWait(o) \/ TryLin(o) \/ UnlockLin(o)
Ret(o) == o \in ops /\ o.ph = 9 /\ ops' = ops \ {o}
Exclusion == \A i, j \in 1..Len(wq) : (wq[i] = wq[j] => i = j) /\ wq[i] # holder
Handed == holder = -1 => wq = <<>>
=============================================================================
