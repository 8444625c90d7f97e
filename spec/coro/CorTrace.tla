------------------------------ MODULE CorTrace ------------------------------
(* Accepts the traces of drv/coro.cpp: a task with a coroutine behaves as a task (SchedAbs)
   whose executions are the parts of the coroutine between suspensions (Cor). *)
EXTENDS SchedAbs, Cor, Trc

VARIABLE rcv   \* k -> the suspension ends with a receipt of a signal
vars == <<avars, cvars, rcv, trcVars>>
UA(v) == UNCHANGED v

Init == /\ TrcInit /\ AbsInit(1..Traces[tid].cfg.n) /\ CInit(1..Traces[tid].cfg.n)
        /\ rcv = [k \in 1..Traces[tid].cfg.n |-> FALSE]

NextTask == IF More /\ Ev.e \in {"wr", "sr", "rs", "cb"} THEN Ev.k ELSE 0
Internal == NextTask # 0 /\ UA(<<cvars, rcv, loc, dl, inst, before, now, nw, act>>) /\
    \E o \in ops : /\ o.k = NextTask
                   /\ WakeLin(o) \/ SigLin(o) \/ (loc[o.k] = "taken" /\ RecvLin(o))
TakeIt ==
    /\ NextTask # 0
    /\ Due(NextTask) \/ st[NextTask] # "pend"
    /\ Take(NextTask)
    /\ UA(<<cvars, rcv, dl, inst, before, ops, now, nw, act>>)

OpRet(op) == \E o \in ops : o.h = Ev.h /\ o.op = op /\ o.done /\ ops' = ops \ {o}

\* Nothing which could run stays: time may pass only then.
Quiet(to) ==
    \A k \in Task :
       /\ loc[k] # "taken"
       /\ loc[k] \in {"pin", "in"} =>
            /\ dl[k] # 0 /\ st[k] = "pend"
            /\ dl[k] >= to \/ (TCfg.tk = 1 /\ to # INF)

CallOp(op) == OpCall(IF op = "recv" THEN -Ev.k ELSE Ev.h, op, Ev.k)

Step == Consume /\
    \/ Ev.e = "fc" /\ Create(Ev.k, Ev.f) /\ UA(<<avars, rcv>>)
    \/ Ev.e = "fd" /\ Destroy(Ev.k, Ev.f) /\ UA(<<avars, rcv>>)
    \/ Ev.e = "st" /\ Stmt(Ev.k, Ev.f, Ev.p, Ev.h) /\ UA(<<avars, rcv>>)
    \/ Ev.e = "ca" /\ Call(Ev.k, Ev.f, Ev.g, Ev.h) /\ UA(<<avars, rcv>>)
    \/ Ev.e = "rt" /\ Return(Ev.k, Ev.f, Ev.g, Ev.h) /\ UA(<<avars, rcv>>)
    \/ /\ Ev.e = "rs" /\ Resume(Ev.k, Ev.f, Ev.p, Ev.h)
       /\ Begin(Ev.k) /\ (IF TCfg.raw = 1 THEN UA(now) ELSE SetClock(Ev.t))
       /\ IF rcv[Ev.k]
          THEN \E o \in ops : o.h = -Ev.k /\ o.done /\ o.v = (Ev.v = 1) /\ ops' = ops \ {o}
          ELSE Ev.v = -1 /\ UA(ops)
       /\ rcv' = [rcv EXCEPT ![Ev.k] = FALSE]
       /\ UA(<<dl, st, inst, nw>>)
    \* The task posts itself.
    \/ /\ Ev.e = "yc" /\ Suspend(Ev.k, Ev.f, Ev.p, Ev.h)
       /\ loc[Ev.k] = "run" /\ PostCall(Ev.k, Ev.d, Ev.n) /\ SetClock(Ev.t)
       /\ rcv' = [rcv EXCEPT ![Ev.k] = (Ev.r = 1)]
       /\ IF Ev.r = 1 THEN CallOp("recv") ELSE UA(ops)
       /\ UA(<<st, nw, act>>)
    \/ /\ Ev.e = "ys" /\ Suspend(Ev.k, Ev.f, Ev.p, Ev.h) /\ Leave(Ev.k, "user")
       /\ UA(<<dl, st, inst, before, ops, now, nw, act, rcv>>)
    \/ /\ Ev.e = "rq" /\ loc[Ev.k] = "user" /\ loc' = [loc EXCEPT ![Ev.k] = "taken"]
       /\ UA(<<dl, st, inst, before, ops, now, nw, act, rcv, cvars>>)
    \/ Ev.e = "rd" /\ loc[Ev.k] = "user" /\ UA(<<avars, cvars, rcv>>)
    \/ /\ Ev.e = "en" /\ End(Ev.k, Ev.f, Ev.h)
       /\ IF Len(stk[Ev.k]) = 1 THEN Leave(Ev.k, "user") ELSE UA(loc)
       /\ UA(<<dl, st, inst, before, ops, now, nw, act, rcv>>)
    \/ /\ Ev.e = "xc" /\ Exit(Ev.k, Ev.f, Ev.w, Ev.h)
       /\ IF Ev.w = 2 THEN UA(loc) ELSE Leave(Ev.k, "gone")
       /\ UA(<<dl, st, inst, before, ops, now, nw, act, rcv>>)
    \/ /\ Ev.e = "cb" /\ Callback(Ev.k, Ev.h) /\ Ev.same = 1
       /\ IF ph[Ev.k] = "plain" THEN Begin(Ev.k) /\ SetClock(Ev.t) ELSE UA(<<loc, before, act, now>>)
       /\ UA(<<dl, st, inst, ops, nw, rcv>>)
    \/ /\ Ev.e = "td" /\ CbEnd(Ev.k) /\ Leave(Ev.k, "gone") /\ UA(<<dl, st, inst, before, ops, now, nw, act, rcv>>)
    \/ /\ Ev.e = "xe" /\ CbEnd(Ev.k) /\ Leave(Ev.k, "user") /\ UA(<<dl, st, inst, before, ops, now, nw, act, rcv>>)
    \/ /\ Ev.e = "pc" /\ PostCall(Ev.k, Ev.d, Ev.n) /\ SetClock(Ev.t)
       /\ IF loc[Ev.k] = "run" THEN CbPost(Ev.k) ELSE UA(cvars)
       /\ UA(<<st, ops, nw, act, rcv>>)
    \/ /\ Ev.e = "pr" /\ PostRet(Ev.k, Ev.n) /\ UA(<<dl, st, inst, before, ops, now, nw, act, cvars, rcv>>)
    \/ /\ Ev.e = "sg" /\ Told(Ev.k) /\ UA(<<avars, rcv>>)
    \/ /\ Ev.e = "dc" /\ loc[Ev.k] = "user" /\ DestroyAll(Ev.k) /\ UA(<<avars, rcv>>)
    \* Whatever comes next is a new task.
    \/ /\ Ev.e = "dr" /\ fresh[Ev.k] = {} /\ DestroyedAll(Ev.k)
       /\ st' = [st EXCEPT ![Ev.k] = "pend"] /\ UA(<<loc, dl, inst, before, ops, now, nw, act, rcv>>)
    \/ /\ Ev.e = "rp" /\ DestroyedAll(Ev.k) /\ UA(<<avars, rcv>>)
    \/ /\ Ev.e = "em" /\ Ev.v = Ev.w /\ UA(<<avars, cvars, rcv>>)
    \/ /\ Ev.e \in {"wc", "sc"} /\ CallOp(IF Ev.e = "wc" THEN "wake" ELSE "sig")
       /\ UA(<<loc, dl, st, inst, before, now, nw, act, cvars, rcv>>)
    \/ /\ Ev.e \in {"wr", "sr"} /\ OpRet(IF Ev.e = "wr" THEN "wake" ELSE "sig")
       /\ UA(<<loc, dl, st, inst, before, now, nw, act, cvars, rcv>>)
    \/ Ev.e = "gs" /\ nw' = Ev.n /\ UA(<<loc, dl, st, inst, before, ops, now, act, cvars, rcv>>)
    \/ Ev.e = "tr" /\ UA(<<avars, cvars, rcv>>)
    \/ Ev.e = "jump" /\ Quiet(Ev.to) /\ SetClock(Ev.to) /\ UA(<<loc, dl, st, inst, before, ops, nw, act, cvars, rcv>>)
    \/ Ev.e = "tick" /\ SetClock(Ev.to) /\ UA(<<loc, dl, st, inst, before, ops, nw, act, cvars, rcv>>)
    \/ Ev.e = "idle" /\ Quiet(INF) /\ UA(<<avars, cvars, rcv>>)
    \/ /\ Ev.e = "fin" /\ \A k \in Task : Nothing(k) /\ fresh[k] = {} /\ ph[k] \notin {"run", "ret", "cb"}
       /\ UA(<<avars, cvars, rcv>>)
    \* "leak", "uaf", "fatal": never.

Next == ((Internal \/ TakeIt) /\ Silent) \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
