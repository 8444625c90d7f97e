----------------------------- MODULE SrvTrace -----------------------------
(* Accepts the traces of drv/srv.cpp which are behaviours of Srv: C24. *)
EXTENDS Srv, Trc

vars == <<svars, trcVars>>
Init == TrcInit /\ SrvInit(1..Traces[tid].cfg.n)

Next ==
    /\ Consume
    /\ LET e == Ev IN
       \/ e.e = "bd" /\ Bind(e.k, e.ok = 1)
       \/ e.e = "nu" /\ NeverUsed(e.k)
       \/ e.e = "ls" /\ Listen(e.k)
       \/ e.e = "lr" /\ ListenRet(e.k)
       \/ e.e = "cc" /\ CloseCall(e.k)
       \/ e.e = "cr" /\ CloseRet(e.k)
       \/ e.e = "cq" /\ Established(e.k, e.i)
       \/ e.e = "cx" /\ Lost(e.k, e.i)
       \/ e.e = "ac" /\ Accept(e.k, e.i, e.ok = 1)
       \/ e.e = "cl" /\ Closed(e.k)
       \/ e.e = "ic" /\ IsClosed(e.k, e.b = 1, e.v = 1)
       \/ e.e = "rb" /\ Rebind(e.k, e.ok = 1)
       \/ e.e = "idle" /\ Idle(e.k, e.q)
       \/ e.e = "fds" /\ e.n = 0 /\ UNCHANGED svars
       \/ e.e \in {"jump", "tick"} /\ UNCHANGED svars
       \* "overlap", "baderr", "ebadf", "blocked", "leak", "uaf", "fatal": never.

Spec == Init /\ [][Next]_vars
=============================================================================
