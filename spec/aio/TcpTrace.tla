----------------------------- MODULE TcpTrace -----------------------------
(* Accepts the traces of drv/tcp.cpp and drv/ssl.cpp which are behaviours of Tcp: C22, C23, C25.
   The latter is about everything. *)
EXTENDS Tcp, Trc

Rqs(as, c) == Req(as \cup {"C25"}, c)
vars == <<tvars, trcVars>>
Init == TrcInit /\ TcpInit(1..Traces[tid].cfg.n)
Ur == TCfg.ur = 1

Next ==
    /\ Consume
    /\ LET e == Ev IN
       \/ e.e = "po" /\ Post(e.k, e.h)
       \/ e.e = "pr" /\ PostRet(e.k, e.l)
       \/ e.e = "pa" /\ PlanConnect(e.k, e.t, e.a)
       \/ e.e = "cn" /\ ConnectCall(e.k, e.t, e.p, e.a)
       \/ e.e = "tc" /\ TaskConnect(e.k)
       \/ e.e = "sc" /\ SendCall(e.k, e.c, e.n, e.w)
       \/ e.e = "sr" /\ SendRet(e.k, e.c, e.x)
       \/ e.e = "qc" /\ RecvCall(e.k, e.c, e.w)
       \/ e.e = "qr" /\ RecvRet(e.k, e.c, e.x)
       \/ e.e = "cc" /\ CloseCall(e.k, e.c)
       \/ e.e = "cr" /\ CloseRet(e.k, e.c)
       \/ e.e = "hc" /\ ShutCall(e.k, e.c)
       \/ e.e = "hr" /\ ShutRet(e.k, e.c)
       \/ e.e = "ev" /\ Event(e.k)
       \/ e.e = "co" /\ Connected(e.k)
       \/ e.e = "ic" /\ IsConnected(e.k, e.v = 1)
       \/ e.e = "ce" /\ ConnectError(e.k, e.ok = 1)
       \/ e.e = "re" /\ IoError(e.k, e.ok = 1)
       \/ e.e = "sx" /\ IoError(e.k, e.ok = 1)
       \/ e.e = "er" /\ Error(e.k, e.ok = 1)
       \/ e.e = "se" /\ Sent(e.k, e.n)
       \/ e.e = "rc" /\ Received(e.k, e.n, e.ok = 1)
       \/ e.e = "cl" /\ Closed(e.k, e.v = 1)
       \/ e.e = "nd" /\ Req({"C23"}, e.v = e.x) /\ UNCHANGED tvars
       \/ e.e = "gt" /\ PeerGot(e.k, e.l, e.n, e.s)
       \/ e.e = "pw" /\ PeerWrote(e.k, e.l, e.n)
       \/ e.e = "md" /\ Mode(e.k, e.m, e.d = 1)
       \/ e.e = "en" /\ Encrypt(e.k)
       \/ e.e = "pc" /\ PeerCorrupt(e.k, e.l)
       \/ e.e = "badtls" /\ PeerFailed(e.k, e.l)
       \/ e.e = "pz" /\ PeerWhole(e.k, e.l)
       \/ e.e = "ef" /\ ReadEnd(e.k)
       \/ e.e = "sn" /\ Req({"C25"}, e.v = e.x) /\ UNCHANGED tvars
       \/ e.e = "px" /\ PeerEnd(e.k, e.l)
       \/ e.e = "pe" /\ PeerSawEnd(e.k, e.l)
       \/ e.e = "idle" /\ Idle(e.k, e.cs, e.rx, e.fin = 1, e.rst = 1, e.pa = 1, e.dr = 1, e.fl = 1, Ur)
       \/ e.e = "fds" /\ e.n = 0 /\ UNCHANGED tvars
       \/ e.e \in {"jump", "tick"} /\ UNCHANGED tvars
       \* "overlap", "badwrap", "ebadf", "blocked", "leak", "uaf", "fatal": never.

Spec == Init /\ [][Next]_vars
=============================================================================
