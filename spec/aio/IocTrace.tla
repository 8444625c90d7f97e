----------------------------- MODULE IocTrace -----------------------------
(* Accepts the traces of drv/ioc.cpp which are behaviours of Ioc: C21. *)
EXTENDS Ioc, Trc

vars == <<ivars, trcVars>>
Init == TrcInit /\ IocInit(1..Traces[tid].cfg.n)
Tk == TCfg.tk = 1

Next ==
    /\ Consume
    /\ LET e == Ev IN
       \/ e.e = "po" /\ Post(e.k, e.c, e.s = 1)
       \/ e.e = "pr" /\ PostRet(e.k, e.c)
       \/ e.e = "wk" /\ WakeCall(e.k, e.c)
       \/ e.e = "wkr" /\ WakeRet(e.k, e.c)
       \/ e.e = "cl" /\ CloseCall(e.k, e.c)
       \/ e.e = "clr" /\ CloseRet(e.k, e.c)
       \/ e.e = "in" /\ Begin(e.k, e.c = 1, e.x = 1, e.s = 1, e.t, Tk) /\ e.g = 1 /\ e.kp = 0
       \/ e.e = "out" /\ End(e.k)
       \/ e.e = "end" /\ CloseEnd(e.k)
       \/ e.e = "sd" /\ SetDeadline(e.k, e.v)
       \/ e.e = "rs" /\ SetDeadline(e.k, 0)
       \/ e.e = "at" /\ Attach(e.k)
       \/ e.e = "rd" /\ e.ok = 1 /\ Read(e.k, e.n)
       \/ e.e = "rx" /\ ReadFail(e.k)
       \/ e.e = "rl" /\ ReadWait(e.k, TRUE)
       \/ e.e = "ru" /\ ReadWait(e.k, FALSE)
       \/ e.e = "ss" /\ Sent(e.k, e.n)
       \/ e.e = "sx" /\ SendFail(e.k)
       \/ e.e = "sl" /\ SendWait(e.k, TRUE)
       \/ e.e = "su" /\ SendWait(e.k, FALSE)
       \/ e.e = "er" /\ Broken(e.k)
       \/ e.e = "pw" /\ PeerWrite(e.k, e.n)
       \/ e.e = "pq" /\ PeerRead(e.k, e.n)
       \/ e.e = "ps" /\ PeerEnd(e.k, FALSE)
       \/ e.e = "px" /\ PeerEnd(e.k, TRUE)
       \/ e.e = "gs" /\ Starting
       \/ e.e = "tc" /\ Stopping
       \/ e.e = "tr" /\ Stopped
       \/ e.e = "we" /\ WaitCall(e.h, e.t, IF e.lim < 0 THEN INF ELSE e.t + e.lim)
       \/ e.e = "wr" /\ WaitRet(e.h, e.v, e.t)
       \/ e.e = "jump" /\ Idle(e.to, Tk)
       \/ e.e = "idle" /\ Idle(INF, Tk)
       \/ e.e = "tick" /\ Tick(e.to)
       \/ e.e = "del" /\ Deleted(e.k)
       \* "leak", "uaf", "fatal": never.

Spec == Init /\ [][Next]_vars
=============================================================================
