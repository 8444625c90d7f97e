-------------------------------- MODULE Mtx --------------------------------
(* mg::box::Mutex (recursive), ConditionVariable and Thread. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES owner, depth, ops
\* ops: [h, op, ph, v, lim]; waits on the condition variable: ph 0 = called, 1 = waiting,
\* 2 = woken up, 3 = timed out; 9 = done.
mvars == <<owner, depth, ops>>
INF == 1000000000
MtxInit == owner = -1 /\ depth = 0 /\ ops = {}
B(c) == IF c THEN 1 ELSE 0
Call(h, op, lim) == /\ \A o \in ops : o.h # h
                    /\ ops' = ops \cup {[h |-> h, op |-> op, ph |-> 0, v |-> 0, lim |-> lim]}
Upd(o, ph, v) == ops' = (ops \ {o}) \cup {[o EXCEPT !.ph = ph, !.v = v]}
Waits == {"wait", "twait"}
Waiting == {o \in ops : o.op \in Waits /\ o.ph = 1}
LockLin(o) == /\ o.op = "lock" /\ o.ph = 0 /\ owner \in {-1, o.h}
              /\ owner' = o.h /\ depth' = depth + 1 /\ Upd(o, 9, 1)
TryLin(o) == /\ o.op = "try" /\ o.ph = 0
             /\ IF owner \in {-1, o.h} THEN owner' = o.h /\ depth' = depth + 1 /\ Upd(o, 9, 1)
                ELSE UNCHANGED <<owner, depth>> /\ Upd(o, 9, 0)
UnlockLin(o) == /\ o.op = "unlock" /\ o.ph = 0 /\ owner = o.h
                /\ depth' = depth - 1 /\ owner' = (IF depth = 1 THEN -1 ELSE owner) /\ Upd(o, 9, 1)
OwnLin(o) == /\ o.op = "own" /\ o.ph = 0 /\ Upd(o, 9, B(owner = o.h)) /\ UNCHANGED <<owner, depth>>
\* The wait begins: the mutex is released in the same step.
WaitBegin(o) == /\ o.op \in Waits /\ o.ph = 0 /\ owner = o.h /\ depth = 1
                /\ owner' = -1 /\ depth' = 0 /\ Upd(o, 1, 0)
WaitEnd(o) == /\ o.op \in Waits /\ o.ph \in {2, 3} /\ owner = -1
              /\ owner' = o.h /\ depth' = 1 /\ Upd(o, 9, IF o.ph = 2 THEN 1 ELSE 0)
\* Reasons to wake up.
Timeout(o, now) == /\ o.op = "twait" /\ o.ph \in {1, 2} /\ now >= o.lim /\ Upd(o, 3, 0) /\ UNCHANGED <<owner, depth>>
Spurious(o) == /\ o \in Waiting /\ Upd(o, 2, 1) /\ UNCHANGED <<owner, depth>>
SignalLin(o) == /\ o.op = "signal" /\ o.ph = 0 /\ UNCHANGED <<owner, depth>>
                /\ IF Waiting = {} THEN Upd(o, 9, 0)
                   ELSE \E w \in Waiting : ops' = (ops \ {o, w}) \cup {[o EXCEPT !.ph = 9], [w EXCEPT !.ph = 2]}
BcastLin(o) == /\ o.op = "bcast" /\ o.ph = 0 /\ UNCHANGED <<owner, depth>>
               /\ ops' = ((ops \ {o}) \ Waiting) \cup {[o EXCEPT !.ph = 9]} \cup {[w EXCEPT !.ph = 2] : w \in Waiting}
Lin(o) == LockLin(o) \/ TryLin(o) \/ UnlockLin(o) \/ OwnLin(o) \/ WaitBegin(o) \/ WaitEnd(o) \/ SignalLin(o) \/ BcastLin(o)
Ret(o) == o \in ops /\ o.ph = 9 /\ ops' = ops \ {o}
\* Nothing can be done without a new call or passing of time.
Stuck(now) ==
    /\ owner = -1 => \A o \in ops : ~(o.op \in {"lock"} /\ o.ph = 0) /\ ~(o.op \in Waits /\ o.ph \in {2, 3})
    /\ \A o \in Waiting : o.lim > now
    /\ \A o \in ops : o.ph = 0 => o.op = "lock"
OwnerOK == owner = -1 <=> depth = 0
=============================================================================
