----------------------------- MODULE SioTrace -----------------------------
(* Accepts the traces of drv/sio.cpp which are behaviours of Sio: C26. *)
EXTENDS Sio, Trc

vars == <<svars, trcVars>>
Init == TrcInit /\ SioInit(12)

Next ==
    /\ Consume
    /\ LET e == Ev IN
       \/ e.e = "cn" /\ Connect(e.i, e.c, e.sf, e.p, e.im = 1, e.r = 1, e.er, e.st, e.a)
       \/ e.e = "wr" /\ Wrap(e.i, e.c, e.st, e.a)
       \/ e.e = "up" /\ Update(e.i, e.b, e.a, e.f, e.r = 1, e.er, e.st)
       \/ e.e = "sd" /\ Send(e.i, e.n, e.b, e.a, e.st)
       \/ e.e = "rc" /\ Recv(e.i, e.m, e.ok = 1, e.b, e.a, e.f, e.r, e.er, e.st)
       \/ e.e = "cl" /\ Close(e.i, e.a, e.st)
       \/ e.e = "sb" /\ Bind(e.w, e.g, e.nb = 1, e.busy = 1, e.x, e.r = 1, e.er)
       \/ e.e = "sl" /\ Listen(e.x, e.r = 1, e.er, e.o = 1)
       \/ e.e = "sc" /\ ServerClose(e.o = 1)
       \/ e.e = "ac" /\ Accept(e.q, e.h, e.f, e.fc, e.r = 1, e.c, e.ok = 1, e.er, e.o = 1)
       \/ e.e = "end" /\ End(e.i, e.o, e.both = 1)
       \/ e.e = "fds" /\ e.n = 0 /\ UNCHANGED svars
       \/ e.e \in {"jump", "tick"} /\ UNCHANGED svars
       \* "ebadf", "blocked", "leak", "uaf", "fatal": never.

Spec == Init /\ [][Next]_vars
=============================================================================
