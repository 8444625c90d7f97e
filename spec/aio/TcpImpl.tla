------------------------------ MODULE TcpImpl ------------------------------
(* The algorithm of TCPSocketIFace, TCPSocketCtl and TCPSocket over epoll, one action per critical
   section, atomic operation or system call, for one socket: users' threads, the task (invoked by one
   worker at a time: this is what IocImpl is about), the kernel and the remote end. Each event of the
   interface is a step of Tcp too, whose requirements are assertions here. So it is checked that
   the algorithm refines Tcp, the specification which the traces of the code are validated against. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Thread,      \* users' threads
          Script,      \* [Thread -> sequence of [op, c, n]]: op is "send", "recv", "close", "shut"
          OnConn,      \* the same for OnConnect(): "send", "recv", "close"
          Rearm,       \* OnRecv() asks for more data
          OnClosing,   \* the same for OnClose()
          Lives,       \* the socket is opened so many times
          PeerBytes,   \* the remote end writes so many in each life
          PeerEnds,    \* how the remote end may end: of {"shut", "abort"}
          ConnFails,   \* a connect may fail
          Cap          \* of the kernel's buffers

VARIABLES sk,          \* Tcp
          st, fsend, frecv, fctl,  \* under the mutex (frecv is atomic)
          send, soff, recv, ctl,   \* of the task
          cs,                      \* the connect: "no", "wait" for the kernel, "ready"
          sev, rev,                \* the events: "lock", "free", "wait"
          closeReq, closed, wake, edge,  \* of the task's core; edge: not delivered events
          k,           \* kernel, by lives
          w,           \* the task's execution: [pc, q, at, ret, n]
          m,           \* who opens the socket at first
          prq,         \* lives whose opening call has not returned yet
          u            \* threads: [i, pc, f]
ivars == <<st, fsend, frecv, fctl, send, soff, recv, ctl, cs, sev, rev, closeReq, closed, wake, edge, k, w, m, prq, u>>
vars == <<sk, ivars>>
front == <<st, fsend, frecv, fctl>>
own == <<send, soff, recv, ctl, cs, sev, rev>>
core == <<closeReq, closed, wake, edge>>

AssertRq(as, c) == Assert(c, as)
T == INSTANCE Tcp WITH Rq <- AssertRq
Me == 1
L == sk[Me].L
NoEv == UNCHANGED sk
Range(f) == {f[i] : i \in DOMAIN f}

K0 == [st |-> "none", ok |-> TRUE, wire |-> <<>>, rx |-> 0, fin |-> FALSE, rst |-> FALSE, full |-> FALSE,
       open |-> TRUE, peer |-> FALSE, wrote |-> 0, shut |-> FALSE]

Init ==
    /\ sk = [x \in {Me} |-> T!NewSock]
    /\ st = "new" /\ fsend = <<>> /\ frecv = 0 /\ fctl = {}
    /\ send = <<>> /\ soff = 0 /\ recv = 0 /\ ctl = {} /\ cs = "no" /\ sev = "lock" /\ rev = "lock"
    /\ closeReq = FALSE /\ closed = FALSE /\ wake = FALSE /\ edge = {}
    /\ k = <<>> /\ w = [pc |-> "none", q |-> <<>>, at |-> "", ret |-> "", n |-> 0]
    /\ m = "post" /\ prq = {}
    /\ u = [t \in Thread |-> [i |-> 1, pc |-> "", f |-> FALSE]]

(**************************************************************************************)
(* Opening: by the main thread, then in OnClose(). *)

OpenA == T!Post(Me, "connect") /\ k' = Append(k, K0) /\ prq' = prq \cup {L + 1}
         /\ UNCHANGED <<front, own, core, u>>
OpenB == T!PlanConnect(Me, 0, 1) /\ UNCHANGED <<front, own, core, k, prq, u>>
OpenC ==
    /\ Assert(st \in {"new", "closed"} /\ fctl = {} /\ recv = 0 /\ send = <<>> /\ ctl = {}
              /\ sev = "lock" /\ rev = "lock" /\ cs = "no", "not like new")
    /\ st' = "connecting" /\ fctl' = {"conn"}
    /\ closed' = FALSE /\ closeReq' = FALSE /\ wake' = TRUE /\ edge' = {}
    /\ soff' = 0
    /\ NoEv /\ UNCHANGED <<fsend, frecv, send, recv, ctl, cs, sev, rev, k, prq, u>>
Main ==
    \/ m = "post" /\ OpenA /\ m' = "plan" /\ UNCHANGED w
    \/ m = "plan" /\ OpenB /\ m' = "go" /\ UNCHANGED w
    \/ m = "go" /\ OpenC /\ m' = "done" /\ w' = [w EXCEPT !.pc = "sleep"]
Returns ==
    /\ \E l \in prq :
        \* Only after the call was done.
        /\ l < L \/ (m = "done" /\ w.pc \notin {"c4", "c5"})
        /\ T!PostRet(Me, l) /\ prq' = prq \ {l}
    /\ UNCHANGED <<front, own, core, k, w, m, u>>

(**************************************************************************************)
(* Users. *)

Op(t) == Script[t][u[t].i]
At(t, pc) == u[t].i <= Len(Script[t]) /\ u[t].pc = pc
Go(t, pc) == u' = [u EXCEPT ![t].pc = pc]
Stay == UNCHANGED <<own, closed, edge, k, w, m, prq>>

UCall(t) ==
    /\ At(t, "") /\ Go(t, "do")
    \* The opening has been called at least.
    /\ Op(t).op = "shut" => st # "new"
    /\ CASE Op(t).op = "send" -> T!SendCall(Me, Op(t).c, Op(t).n, 0)
         [] Op(t).op = "recv" -> T!RecvCall(Me, Op(t).c, 0)
         [] Op(t).op = "close" -> T!CloseCall(Me, Op(t).c)
         [] Op(t).op = "shut" -> T!ShutCall(Me, Op(t).c)
    /\ UNCHANGED <<front, core>> /\ Stay

PostSend(c, n) == fsend' = Append(fsend, <<c, n>>) /\ UNCHANGED <<st, frecv, fctl>>
PostClose ==
    IF st \in {"closing", "closed"} THEN UNCHANGED <<front, core>>
    ELSE IF st = "new" THEN st' = "closed" /\ UNCHANGED <<fsend, frecv, fctl, core>>
    ELSE st' = "closing" /\ closeReq' = TRUE /\ UNCHANGED <<fsend, frecv, fctl, closed, wake, edge>>
UDo(t) ==
    /\ At(t, "do")
    /\ CASE Op(t).op = "send" -> /\ PostSend(Op(t).c, Op(t).n)
                                 /\ u' = [u EXCEPT ![t].pc = "wake", ![t].f = (fsend = <<>>)]
                                 /\ UNCHANGED core
         [] Op(t).op = "recv" -> /\ frecv' = 1 /\ UNCHANGED <<st, fsend, fctl>>
                                 /\ u' = [u EXCEPT ![t].pc = "wake", ![t].f = (frecv = 0)]
                                 /\ UNCHANGED core
         [] Op(t).op = "close" -> PostClose /\ Go(t, "ret")
         [] Op(t).op = "shut" -> /\ IF st \in {"closing", "closed"} THEN UNCHANGED <<front, core>>
                                    ELSE /\ fctl' = fctl \cup {"shut"} /\ wake' = TRUE
                                         /\ UNCHANGED <<st, fsend, frecv, closeReq, closed, edge>>
                                 /\ Go(t, "ret")
    /\ NoEv /\ Stay
UWake(t) ==
    /\ At(t, "wake") /\ Go(t, "ret")
    /\ wake' = (wake \/ u[t].f)
    /\ NoEv /\ UNCHANGED <<front, closeReq>> /\ Stay
URet(t) ==
    /\ At(t, "ret")
    /\ LET x == IF st = "closed" THEN 1 ELSE 0 IN
       CASE Op(t).op = "send" -> T!SendRet(Me, Op(t).c, x)
         [] Op(t).op = "recv" -> T!RecvRet(Me, Op(t).c, x)
         [] Op(t).op = "close" -> T!CloseRet(Me, Op(t).c)
         [] Op(t).op = "shut" -> T!ShutRet(Me, Op(t).c)
    /\ u' = [u EXCEPT ![t].pc = "", ![t].i = @ + 1]
    /\ UNCHANGED <<front, core>> /\ Stay
User == \E t \in Thread : UCall(t) \/ UDo(t) \/ UWake(t) \/ URet(t)

(**************************************************************************************)
(* The task. *)

Pc(p) == w.pc = p
To(p) == w' = [w EXCEPT !.pc = p]
Alone == UNCHANGED <<k, m, prq, u>>
Off(l) == [l EXCEPT !.open = FALSE]

Take ==
    /\ Pc("sleep") /\ ~closed /\ (wake \/ closeReq \/ edge # {})
    /\ wake' = FALSE /\ edge' = {} /\ closed' = closeReq
    /\ To(IF closeReq THEN "c1" ELSE IF "err" \in edge THEN "er" ELSE "event")
    /\ LET ok == ~closeReq /\ "err" \notin edge IN
       /\ sev' = IF ok /\ sev = "wait" /\ "out" \in edge THEN "free" ELSE sev
       /\ rev' = IF ok /\ rev = "wait" /\ "in" \in edge THEN "free" ELSE rev
       /\ cs' = IF ok /\ cs = "wait" /\ "out" \in edge THEN "ready" ELSE cs
    /\ NoEv /\ UNCHANGED <<front, send, soff, recv, ctl, closeReq>> /\ Alone
Compromised == st \in {"closing", "closed"}

\* Errors: [check] -> the specific event -> the common one -> ProtClose().
Err(pc, next, ev, skip) ==
    /\ Pc(pc) /\ To(IF Compromised THEN skip ELSE next)
    /\ NoEv /\ UNCHANGED <<front, own, core>> /\ Alone
ErrEv(pc, ev, next) ==
    /\ Pc(pc) /\ To(next) /\ ev /\ UNCHANGED <<front, own, core>> /\ Alone
\* Without the closed task.
ProtClose(pc, next) ==
    /\ Pc(pc) /\ To(next)
    /\ Assert(st # "new", "close of a new one")
    /\ st' = "closing" /\ closeReq' = TRUE
    /\ NoEv /\ UNCHANGED <<fsend, frecv, fctl, own, closed, wake, edge>> /\ Alone

Errors ==
    \/ Err("er", "er2", 0, "er3") \/ ErrEv("er2", T!Error(Me, TRUE), "er3") \/ ProtClose("er3", "sleep")
    \/ Err("ce", "ce1", 0, "ce3") \/ ErrEv("ce1", T!ConnectError(Me, TRUE), "ce2")
    \/ ErrEv("ce2", T!Error(Me, TRUE), "ce3") \/ ProtClose("ce3", "p4")
    \/ Err("re", "re1", 0, "re3") \/ ErrEv("re1", T!IoError(Me, TRUE), "re2")
    \/ ErrEv("re2", T!Error(Me, TRUE), "re3") \/ ProtClose("re3", "s1")
    \/ Err("sx", "sx1", 0, "sx3") \/ ErrEv("sx1", T!IoError(Me, TRUE), "sx2")
    \/ ErrEv("sx2", T!Error(Me, TRUE), "sx3") \/ ProtClose("sx3", "sleep")
    \/ ProtClose("eof", "r2")

Event ==
    /\ Pc("event") /\ To("p1") /\ T!Event(Me) /\ UNCHANGED <<front, own, core>> /\ Alone
Merge ==
    /\ Pc("p1") /\ NoEv
    /\ IF fctl = {} /\ ctl = {}
       THEN /\ send' = send \o fsend /\ fsend' = <<>> /\ To("p5") /\ UNCHANGED <<st, frecv, fctl, ctl>>
       ELSE /\ Assert(~("conn" \in ctl /\ "conn" \in fctl), "connected twice")
            /\ ctl' = ctl \cup fctl /\ fctl' = {} /\ To("p2") /\ UNCHANGED <<st, fsend, frecv, send>>
    /\ UNCHANGED <<soff, recv, cs, sev, rev, core>> /\ Alone
DoShutdown ==
    /\ Pc("p2") /\ To("p3") /\ NoEv
    /\ IF "shut" \in ctl /\ "conn" \notin ctl
       \* Both directions: the kernel reports the hang-up.
       THEN ctl' = ctl \ {"shut"} /\ k' = [k EXCEPT ![L].shut = TRUE, ![L].fin = TRUE] /\ edge' = edge \cup {"in", "out", "err"}
       ELSE UNCHANGED <<ctl, k, edge>>
    /\ UNCHANGED <<front, send, soff, recv, cs, sev, rev, closeReq, closed, wake, m, prq, u>>
\* The kernel's decision is made right now: fine or not, at once or later, or never.
DoConnect ==
    /\ Pc("p3")
    /\ IF "conn" \notin ctl THEN To("p4") /\ NoEv /\ UNCHANGED <<cs, k>>
       ELSE IF cs = "no" THEN
            \E ok \in {TRUE} \cup (IF ConnFails THEN {FALSE} ELSE {}), now \in BOOLEAN :
                /\ T!ConnectCall(Me, 0, IF ok THEN 0 ELSE 111, 1)
                /\ k' = [k EXCEPT ![L].st = IF ~now THEN "syn" ELSE IF ok THEN "conn" ELSE "fail",
                                  ![L].ok = ok, ![L].peer = (now /\ ok)]
                /\ cs' = IF now THEN "no" ELSE "wait"
                /\ To(IF ~now THEN "p4" ELSE IF ok THEN "p3s" ELSE "p3f")
       ELSE /\ NoEv /\ UNCHANGED k
            /\ cs' = IF cs = "wait" THEN cs ELSE "no"
            /\ To(IF cs = "wait" THEN "p4" ELSE IF k[L].ok THEN "p3s" ELSE "p3f")
    /\ UNCHANGED <<front, send, soff, recv, ctl, sev, rev, core, m, prq, u>>
ConnFail ==
    /\ Pc("p3f") /\ To("ce") /\ ctl' = ctl \ {"conn"}
    /\ NoEv /\ UNCHANGED <<front, send, soff, recv, cs, sev, rev, core>> /\ Alone
ConnOk ==
    /\ Pc("p3s") /\ To("p3h")
    /\ ctl' = ctl \ {"conn"} /\ sev' = "free" /\ rev' = "free" /\ wake' = TRUE
    /\ Assert(st \in {"connecting", "closing"}, "state")
    /\ st' = IF st = "connecting" THEN "handshake" ELSE st
    /\ NoEv /\ UNCHANGED <<fsend, frecv, fctl, send, soff, recv, cs, closeReq, closed, edge>> /\ Alone
Commit ==
    /\ Pc("p3h") /\ To("oc")
    /\ Assert(st \in {"handshake", "closing"}, "state")
    /\ st' = IF st = "handshake" THEN "connected" ELSE st
    /\ NoEv /\ UNCHANGED <<fsend, frecv, fctl, own, core>> /\ Alone
Connect ==
    /\ Pc("oc") /\ T!Connected(Me)
    /\ w' = [w EXCEPT !.pc = "cb", !.q = OnConn, !.at = "", !.ret = "p4", !.n = 1]
    /\ wake' = TRUE
    /\ UNCHANGED <<front, own, closeReq, closed, edge>> /\ Alone
CtlEnd ==
    /\ Pc("p4") /\ To("p5") /\ send' = send \o fsend /\ fsend' = <<>>
    /\ NoEv /\ UNCHANGED <<st, frecv, fctl, soff, recv, ctl, cs, sev, rev, core>> /\ Alone
MergeRecv ==
    /\ Pc("p5") /\ To("r1") /\ recv' = (IF recv + frecv > 0 THEN 1 ELSE 0) /\ frecv' = 0
    /\ NoEv /\ UNCHANGED <<st, fsend, fctl, send, soff, ctl, cs, sev, rev, core>> /\ Alone

\* Calls made in callbacks: the worker's own queues. w.n: the kind of the callback.
CbOp == w.q[1]
CbId == CbOp.c + 16 * L
Cb ==
    /\ Pc("cb")
    /\ IF w.q = <<>> THEN /\ To(w.ret) /\ NoEv /\ UNCHANGED <<front, own, core>>
       ELSE IF w.at = "" THEN
            /\ w' = [w EXCEPT !.at = "do"]
            /\ CASE CbOp.op = "send" -> T!SendCall(Me, CbId, CbOp.n, w.n)
                 [] CbOp.op = "recv" -> T!RecvCall(Me, CbId, w.n)
                 [] CbOp.op = "close" -> T!CloseCall(Me, CbId)
            /\ UNCHANGED <<front, own, core>>
       ELSE IF w.at = "do" THEN
            /\ w' = [w EXCEPT !.at = "ret"] /\ NoEv
            /\ CASE CbOp.op = "send" -> send' = (IF closed THEN send ELSE Append(send, <<CbId, CbOp.n>>)) /\ UNCHANGED <<front, recv, core>>
                 [] CbOp.op = "recv" -> recv' = (IF closed THEN recv ELSE 1) /\ UNCHANGED <<front, send, core>>
                 [] CbOp.op = "close" -> PostClose /\ UNCHANGED <<send, recv>>
            /\ UNCHANGED <<soff, ctl, cs, sev, rev>>
       ELSE /\ w' = [w EXCEPT !.at = "", !.q = Tail(@)]
            /\ CASE CbOp.op = "send" -> T!SendRet(Me, CbId, 0)
                 [] CbOp.op = "recv" -> T!RecvRet(Me, CbId, 0)
                 [] CbOp.op = "close" -> T!CloseRet(Me, CbId)
            /\ UNCHANGED <<front, own, core>>
    /\ Alone

Receive ==
    /\ Pc("r1")
    /\ IF rev # "free" \/ recv = 0 THEN To("s1") /\ NoEv /\ UNCHANGED <<recv, rev, k>>
       ELSE IF k[L].rst THEN To("re") /\ rev' = "lock" /\ NoEv /\ UNCHANGED <<recv, k>>
       ELSE IF k[L].rx > 0 THEN
            \E n \in 1..k[L].rx :
                /\ k' = [k EXCEPT ![L].rx = @ - n] /\ recv' = 0
                /\ T!Received(Me, n, TRUE)
                /\ w' = [w EXCEPT !.pc = "cb", !.at = "", !.ret = "r2", !.n = 1,
                                  !.q = IF Rearm THEN <<[op |-> "recv", c |-> 1000 + 100 * sk[Me].rcvd, n |-> 1]>> ELSE <<>>]
                /\ UNCHANGED rev
       ELSE IF k[L].fin THEN To("eof") /\ NoEv /\ UNCHANGED <<recv, rev, k>>
       ELSE To("s1") /\ rev' = "wait" /\ NoEv /\ UNCHANGED <<recv, k>>
    /\ UNCHANGED <<front, send, soff, ctl, cs, sev, core, m, prq, u>>
ReceiveEnd ==
    /\ Pc("r2") /\ To("s1") /\ wake' = (wake \/ recv > 0)
    /\ NoEv /\ UNCHANGED <<front, own, closeReq, closed, edge>> /\ Alone

RECURSIVE NoEmpty(_), BytesOf(_, _)
NoEmpty(q) == IF q # <<>> /\ q[1][2] = 0 THEN NoEmpty(Tail(q)) ELSE q
BytesOf(q, o) ==
    IF q = <<>> THEN <<>>
    ELSE IF o >= q[1][2] THEN BytesOf(Tail(q), 0)
    ELSE <<<<q[1][1], o>>>> \o BytesOf(q, o + 1)
RECURSIVE Skip(_, _, _)
Skip(q, o, n) ==
    IF q = <<>> THEN <<q, 0>>
    ELSE IF q[1][2] - o <= n THEN Skip(Tail(q), 0, n - (q[1][2] - o)) 
    ELSE <<q, o + n>>
Send ==
    /\ Pc("s1") /\ NoEv
    /\ LET q == IF soff = 0 THEN NoEmpty(send) ELSE send
           b == BytesOf(q, soff)
           room == Cap - Len(k[L].wire) IN
       IF sev # "free" THEN To("sleep") /\ UNCHANGED <<send, sev, k>>
       ELSE /\ send' = q
            /\ IF q = <<>> THEN To("sleep") /\ UNCHANGED <<sev, k>>
               ELSE IF k[L].rst \/ k[L].shut THEN To("sx") /\ sev' = "lock" /\ UNCHANGED k
               ELSE IF room = 0 THEN To("sleep") /\ sev' = "wait" /\ k' = [k EXCEPT ![L].full = TRUE]
               ELSE \E n \in 1..(IF Len(b) < room THEN Len(b) ELSE room) :
                    /\ k' = [k EXCEPT ![L].wire = @ \o SubSeq(b, 1, n)]
                    /\ w' = [w EXCEPT !.pc = "s2", !.n = n] /\ UNCHANGED sev
    /\ UNCHANGED <<front, soff, recv, ctl, cs, rev, core, m, prq, u>>
SendEnd ==
    /\ Pc("s2") /\ To("sleep") /\ T!Sent(Me, w.n)
    /\ LET r == Skip(send, soff, w.n) IN send' = r[1] /\ soff' = r[2] /\ wake' = (wake \/ r[1] # <<>>)
    /\ UNCHANGED <<front, recv, ctl, cs, sev, rev, closeReq, closed, edge>> /\ Alone

\* The end of the life.
Close1 ==
    /\ Pc("c1") /\ To("c2")
    /\ fsend' = <<>> /\ frecv' = 0 /\ fctl' = {} /\ st' = "closed"
    /\ k' = [k EXCEPT ![L] = Off(@)]
    /\ NoEv /\ UNCHANGED <<own, core, m, prq, u>>
Close2 ==
    /\ Pc("c2")
    /\ send' = <<>> /\ soff' = soff /\ recv' = 0 /\ ctl' = {} /\ cs' = "no" /\ sev' = "lock" /\ rev' = "lock"
    /\ T!Closed(Me, st = "closed")
    /\ w' = [w EXCEPT !.pc = "cb", !.q = OnClosing, !.at = "", !.ret = "c3", !.n = 2]
    /\ UNCHANGED <<front, core>> /\ Alone
Reopen ==
    \/ Pc("c3") /\ L >= Lives /\ To("dead") /\ NoEv /\ UNCHANGED <<front, own, core>> /\ Alone
    \/ Pc("c3") /\ L < Lives /\ To("c4") /\ OpenA /\ UNCHANGED m
    \/ Pc("c4") /\ To("c5") /\ OpenB /\ UNCHANGED m
    \/ Pc("c5") /\ To("sleep") /\ OpenC /\ UNCHANGED m

Worker == Take \/ Errors \/ Event \/ Merge \/ DoShutdown \/ DoConnect \/ ConnFail \/ ConnOk \/ Commit \/ Connect
          \/ CtlEnd \/ MergeRecv \/ Cb \/ Receive \/ ReceiveEnd \/ Send \/ SendEnd \/ Close1 \/ Close2 \/ Reopen

(**************************************************************************************)
(* The kernel and the remote end. *)

NetStay == UNCHANGED <<front, own, closeReq, closed, wake, w, m, prq, u>>
Edge(l, es) == edge' = IF l = L /\ k[l].open THEN edge \cup es ELSE edge
Net ==
    \E l \in 1..Len(k) :
       \/ /\ k[l].st = "syn" /\ k[l].open /\ NoEv
          /\ k' = [k EXCEPT ![l].st = IF k[l].ok THEN "conn" ELSE "fail", ![l].peer = k[l].ok]
          /\ Edge(l, IF k[l].ok THEN {"out"} ELSE {"out", "err"}) /\ NetStay
       \/ /\ k[l].peer /\ k[l].wire # <<>>
          /\ LET b == k[l].wire[1] IN T!PeerGot(Me, l, 1, <<<<b[1] % 16, b[2] % 16, 1>>>>)
          /\ k' = [k EXCEPT ![l].wire = Tail(@), ![l].full = FALSE]
          /\ Edge(l, IF k[l].full THEN {"out"} ELSE {}) /\ NetStay
       \/ /\ k[l].peer /\ k[l].open /\ ~k[l].fin /\ k[l].wrote < PeerBytes /\ k[l].rx < Cap
          /\ k' = [k EXCEPT ![l].rx = @ + 1, ![l].wrote = @ + 1]
          /\ T!PeerWrote(Me, l, 1) /\ Edge(l, {"in"}) /\ NetStay
       \/ /\ k[l].peer /\ k[l].open /\ ~k[l].fin /\ "shut" \in PeerEnds
          /\ k' = [k EXCEPT ![l].fin = TRUE]
          /\ T!PeerEnd(Me, l) /\ Edge(l, {"in"}) /\ NetStay
       \/ /\ k[l].peer /\ k[l].open /\ "abort" \in PeerEnds
          /\ k' = [k EXCEPT ![l].rst = TRUE, ![l].peer = FALSE, ![l].wire = <<>>, ![l].rx = 0]
          /\ T!PeerEnd(Me, l) /\ Edge(l, {"in", "out", "err"}) /\ NetStay

(**************************************************************************************)
(* What must be the case when nothing can happen on its own. *)

Quiet ==
    /\ m = "done" /\ prq = {} /\ w.pc \in {"sleep", "dead"} /\ \A t \in Thread : u[t].pc = ""
    /\ (w.pc = "sleep" => ~closed /\ ~wake /\ ~closeReq /\ edge = {})
    /\ \A l \in 1..Len(k) : k[l].wire = <<>> /\ ~(k[l].st = "syn" /\ k[l].open)
Idle ==
    /\ Quiet
    /\ LET x == k[L]
           c == CASE x.st = "syn" -> 1 [] x.st = "conn" -> (IF x.rst THEN 3 ELSE 2) [] OTHER -> 0 IN
       T!Idle(Me, c, x.rx, x.fin, x.rst, x.peer, TRUE, TRUE, FALSE)
    /\ UNCHANGED ivars

Next == Main \/ Returns \/ User \/ Worker \/ Net \/ Idle
Spec == Init /\ [][Next]_vars

\* All goes to the end.
Stuck == m = "done" /\ w.pc = "sleep" /\ closed
NotStuck == ~Stuck
=============================================================================
