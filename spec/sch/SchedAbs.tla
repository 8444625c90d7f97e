------------------------------ MODULE SchedAbs ------------------------------
(* The task scheduler as its users see it. A task is in the user's hands, handed to the
   scheduler (in), taken by a worker (taken) or running. Its status is pend, woken or sig.
   Concurrent calls (wake, signal, receive, wait-empty) take effect at one moment between
   their call and their return: the actions *Lin. *)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANT INF  \* the deadline of an infinite wait

VARIABLES
    loc,    \* task -> "user" | "pin" (post call not returned) | "in" | "taken" | "run" | "gone"
    dl,     \* task -> deadline of the current post; 0 = immediate
    st,     \* task -> "pend" | "woken" | "sig"
    inst,   \* task -> number of the post
    before, \* task -> tasks posted for immediate execution, whose post ended before the post of
            \* this one began, and which did not start yet
    ops,    \* pending calls: [h, op, k, done, v]
    now,
    nw,     \* number of workers, 0 = not running
    act     \* number of callbacks being executed

avars == <<loc, dl, st, inst, before, ops, now, nw, act>>

Task == DOMAIN loc

AbsInit(T) ==
    /\ loc = [k \in T |-> "user"]
    /\ dl = [k \in T |-> 0]
    /\ st = [k \in T |-> "pend"]
    /\ inst = [k \in T |-> 0]
    /\ before = [k \in T |-> {}]
    /\ ops = {}
    /\ now = 0
    /\ nw = 0
    /\ act = 0

Due(k) == dl[k] <= now
Runnable(k) == loc[k] \in {"pin", "in"} /\ (Due(k) \/ st[k] # "pend")
Handed(k) == loc[k] \in {"pin", "in", "taken"}
\* Nothing keeps the scheduler busy. A post which has not returned may have not happened yet.
EmptyNow == \A k \in Task : \/ loc[k] \in {"user", "gone", "pin"}
                            \/ loc[k] = "in" /\ dl[k] = INF /\ st[k] = "pend"

SetClock(t) == now' = IF t > now THEN t ELSE now

PostCall(k, d, n) ==
    /\ loc[k] \in {"user", "run"}
    /\ loc' = [loc EXCEPT ![k] = "pin"]
    /\ dl' = [dl EXCEPT ![k] = d]
    /\ inst' = [inst EXCEPT ![k] = n]
    /\ before' = [before EXCEPT ![k] =
           IF d = 0 THEN {j \in Task : loc[j] \in {"in", "taken"} /\ dl[j] = 0} ELSE {}]
PostRet(k, n) ==
    loc' = IF loc[k] = "pin" /\ inst[k] = n THEN [loc EXCEPT ![k] = "in"] ELSE loc

OpCall(h, op, k) == ops' = ops \cup {[h |-> h, op |-> op, k |-> k, done |-> FALSE, v |-> FALSE, lim |-> 0]}
OpDone(o, v) == ops' = (ops \ {o}) \cup {[o EXCEPT !.done = TRUE, !.v = v]}

WakeLin(o) ==
    /\ o.op = "wake" /\ ~o.done
    /\ OpDone(o, FALSE)
    /\ st' = [st EXCEPT ![o.k] = IF @ = "pend" THEN "woken" ELSE @]
SigLin(o) ==
    /\ o.op = "sig" /\ ~o.done
    /\ OpDone(o, FALSE)
    /\ st' = [st EXCEPT ![o.k] = "sig"]
RecvLin(o) ==
    /\ o.op = "recv" /\ ~o.done
    /\ OpDone(o, st[o.k] = "sig")
    /\ st' = [st EXCEPT ![o.k] = IF @ = "sig" THEN "pend" ELSE @]
IsSigLin(o) ==
    /\ o.op = "issig" /\ ~o.done
    /\ OpDone(o, st[o.k] = "sig")
    /\ UNCHANGED st
EmptyLin(o) ==
    /\ o.op = "we" /\ ~o.done /\ EmptyNow
    /\ OpDone(o, TRUE)

\* A worker takes a task for execution: the wakeup is consumed, a signal is not.
Take(k) ==
    /\ loc[k] \in {"pin", "in"}
    /\ loc' = [loc EXCEPT ![k] = "taken"]
    /\ st' = [st EXCEPT ![k] = IF @ = "woken" THEN "pend" ELSE @]
Begin(k) ==
    /\ loc[k] = "taken"
    /\ loc' = [loc EXCEPT ![k] = "run"]
    /\ before' = [j \in Task |-> before[j] \ {k}]
    /\ act' = act + 1
Leave(k, where) ==
    /\ loc[k] = "run"
    /\ loc' = [loc EXCEPT ![k] = where]

----------------------------------------------------------------------------
TypeOK ==
    /\ \A k \in Task : /\ loc[k] \in {"user", "pin", "in", "taken", "run", "gone"}
                       /\ st[k] \in {"pend", "woken", "sig"}
                       /\ k \notin before[k]
    /\ act >= Cardinality({k \in Task : loc[k] = "run"})
=============================================================================
