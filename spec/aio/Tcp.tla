-------------------------------- MODULE Tcp --------------------------------
(* Asynchronous TCP sockets as their users see them (C22, C23).

   A socket lives several lives: given to the core (connect, wrap or a task without a
   connection), and closed. A call made by a thread takes effect at some moment between its
   beginning and its end, and hence in one of the lives lo..hi. What the remote ends see is
   a part of the state: the bytes received in each life, explained by a set of hypotheses
   about which calls they belong to. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Rq(_, _)   \* Rq(aspects, condition): to be enforced when one of the aspects is checked
VARIABLE sk
tvars == <<sk>>

NoCall == [c |-> 0]
NewSock == [
    L |-> 0,              \* lives begun
    m |-> 0,              \* lives ended
    pr |-> FALSE,         \* the current life's beginning returned
    kind |-> "none", pa |-> 0, to |-> 0, plan |-> 0, cn |-> FALSE, tc |-> FALSE,
    \* Calls: id -> record.
    snd |-> {},           \* [c, n, w, lo, hi, ret, bf: same class calls returned before]
    rq |-> {},            \* requests for data: [c, w, lo, hi, ret, late, old]
    cl |-> {},            \* close calls under way: [c, L]
    sh |-> {},            \* shutdown calls under way
    closeCalled |-> FALSE, closeSure |-> FALSE, closeAtEv |-> FALSE,
    shutCalled |-> FALSE, shutSure |-> FALSE,
    co |-> FALSE, ce |-> FALSE, er |-> 0, want |-> FALSE,
    sent |-> 0,           \* told to be sent in this life
    rcvd |-> 0,           \* bytes given to the user in this life
    nrc |-> 0,            \* times
    tls |-> 0, doom |-> FALSE, enc |-> FALSE,  \* encrypted: 0 - no, 1 - yes, 2 - from some moment
    \* Of the remote end, by lives.
    got |-> <<>>,         \* bytes received
    hyp |-> <<>>,         \* set of [cur, off, done]
    wrote |-> <<>>,
    pend |-> <<>>,        \* ended by the remote side
    bad |-> <<>>,         \* something was damaged on the way
    whole |-> <<>>,       \* and all of it was sent
    eof |-> FALSE         \* the socket has read to the end
    ]

TcpInit(S) == sk = [k \in S |-> NewSock]

Upd(k, r) == sk' = [sk EXCEPT ![k] = r]
S(k) == sk[k]
Open(s) == s.L > s.m
Min2(a, b) == IF a < b THEN a ELSE b

(**************************************************************************************)
(* Lives. *)

Post(k, h) ==
    LET s == S(k) IN
    /\ ~Open(s)
    /\ Upd(k, [s EXCEPT !.L = @ + 1, !.pr = FALSE, !.kind = h, !.pa = -1, !.plan = 0, !.cn = FALSE, !.tc = FALSE,
                 !.closeCalled = (s.cl # {}), !.closeSure = FALSE, !.closeAtEv = FALSE,
                 !.shutCalled = (s.sh # {}), !.shutSure = FALSE,
                 !.co = FALSE, !.ce = FALSE, !.er = 0, !.want = FALSE, !.sent = 0, !.rcvd = 0,
                 !.nrc = 0, !.tls = 0, !.doom = FALSE, !.enc = FALSE, !.bad = Append(@, FALSE), !.whole = Append(@, FALSE), !.eof = FALSE,
                 !.got = Append(@, 0), !.hyp = Append(@, {[cur |-> 0, off |-> 0, done |-> {}]}),
                 !.wrote = Append(@, 0), !.pend = Append(@, FALSE)])
   
PostRet(k, L) ==
    LET s == S(k) IN
    \* It may be over, and a new one started, before the call returns.
    /\ IF s.L = L THEN Upd(k, [s EXCEPT !.pr = TRUE]) ELSE UNCHANGED tvars
   
\* The encryption is set up; the handshake is going to fail.
Mode(k, mode, doom) == Upd(k, [S(k) EXCEPT !.tls = mode, !.doom = doom])
Encrypt(k) == Upd(k, [S(k) EXCEPT !.enc = TRUE])

\* Not earlier than at t, to the address a (0 - the name can't be resolved into a suitable one).
PlanConnect(k, t, a) == Upd(k, [S(k) EXCEPT !.pa = t, !.to = a])
\* The network's answer p is: 0 - fine, -1 - none, else an error.
ConnectCall(k, t, p, a) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, /\ Open(s) /\ ~s.cn /\ s.pa >= 0 /\ t >= s.pa
                   /\ a # 0 /\ a = s.to)
    /\ Upd(k, [s EXCEPT !.cn = TRUE, !.plan = p])
TaskConnect(k) == Upd(k, [S(k) EXCEPT !.tc = TRUE])

(**************************************************************************************)
(* Calls. w: 0 - from elsewhere, 1 - inside of a callback, 2 - inside of the closing one. *)

CallLo(s, w) == IF w = 1 THEN s.L ELSE s.m + 1
CallHi(s, w, x) == IF w = 1 THEN s.L ELSE IF w = 2 THEN 0 ELSE Min2(s.m + 1 + x, s.L + 1)

SendCall(k, c, n, w) ==
    LET s == S(k) IN
    /\ Upd(k, [s EXCEPT !.snd = @ \cup {[c |-> c, n |-> n, w |-> w, lo |-> CallLo(s, w),
                 hi |-> IF w = 0 THEN 1000 ELSE CallHi(s, w, 0), ret |-> FALSE,
                 bf |-> {d.c : d \in {d \in s.snd : d.w = w /\ d.ret}}]}])
   
SendRet(k, c, x) ==
    LET s == S(k) IN
    /\ Upd(k, [s EXCEPT !.snd = {IF d.c = c THEN [d EXCEPT !.ret = TRUE, !.hi = CallHi(s, d.w, x)] ELSE d : d \in s.snd}])
   

RecvCall(k, c, w) ==
    LET s == S(k) IN
    /\ Upd(k, [s EXCEPT !.rq = @ \cup {[c |-> c, w |-> w, lo |-> CallLo(s, w),
                 hi |-> IF w = 0 THEN 1000 ELSE CallHi(s, w, 0), ret |-> FALSE, sure |-> w # 2, old |-> FALSE]}])
   
RecvRet(k, c, x) ==
    LET s == S(k) IN
    /\ Upd(k, [s EXCEPT !.rq = {IF d.c = c THEN [d EXCEPT !.ret = TRUE, !.hi = CallHi(s, d.w, x)] ELSE d : d \in s.rq}])
   

CloseCall(k, c) ==
    LET s == S(k) IN
    /\ Upd(k, [s EXCEPT !.cl = @ \cup {[c |-> c, L |-> IF Open(s) /\ s.pr THEN s.L ELSE 0]}, !.closeCalled = TRUE])
   
CloseRet(k, c) ==
    LET s == S(k)
        d == CHOOSE d \in s.cl : d.c = c IN
    /\ Upd(k, [s EXCEPT !.cl = @ \ {d}, !.closeSure = @ \/ (Open(s) /\ d.L = s.L)])
   
ShutCall(k, c) ==
    LET s == S(k) IN
    \* A task without a connection ignores it.
    /\ Upd(k, [s EXCEPT !.sh = @ \cup {[c |-> c, L |-> IF Open(s) /\ s.pr /\ (s.kind # "task" \/ s.co) THEN s.L ELSE 0]},
                        !.shutCalled = TRUE])
   
ShutRet(k, c) ==
    LET s == S(k)
        d == CHOOSE d \in s.sh : d.c = c IN
    /\ Upd(k, [s EXCEPT !.sh = @ \ {d}, !.shutSure = @ \/ (Open(s) /\ d.L = s.L)])
   

(**************************************************************************************)
(* Notifications. *)

Event(k) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, Open(s) /\ s.want = FALSE)
    /\ Upd(k, [s EXCEPT !.closeAtEv = s.closeSure,
                        !.rq = {IF d.ret THEN [d EXCEPT !.old = TRUE] ELSE d : d \in s.rq}])
   
Connected(k) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, Open(s) /\ ~s.co /\ ~s.ce /\ s.er = 0 /\ s.cn /\ ~s.doom)
    /\ Upd(k, [s EXCEPT !.co = TRUE])
IsConnected(k, v) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, s.co /\ (v \/ s.closeCalled))
    /\ UNCHANGED tvars
\* The specific error is followed by the common one.
ErrorOk(s) == Open(s) /\ s.er = 0 /\ ~s.want /\ ~s.closeAtEv
ConnectError(k, ok) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, ok /\ ErrorOk(s) /\ ~s.co)
    \* There is a reason.
    /\ Rq({"C23"}, /\ s.pa >= 0
                   /\ IF s.cn THEN s.plan > 0 \/ s.pend[s.L] \/ s.tls # 0 ELSE s.to = 0)
    /\ Upd(k, [s EXCEPT !.ce = TRUE, !.want = TRUE])
IoError(k, ok) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, ok /\ ErrorOk(s) /\ (s.co \/ s.tls = 1))
    /\ Upd(k, [s EXCEPT !.want = TRUE])
Error(k, ok) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, ok /\ Open(s) /\ s.er = 0 /\ (s.want \/ ErrorOk([s EXCEPT !.closeAtEv = FALSE])))
    /\ Upd(k, [s EXCEPT !.er = 1, !.want = FALSE])

Eligible(s, L) == {d \in s.snd : d.lo <= L /\ L <= d.hi}
RECURSIVE Total(_)
Total(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN d.n + Total(D \ {d})

Sent(k, n) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, Open(s) /\ s.co /\ ~s.want)
    /\ Rq({"C22"}, n >= 1 /\ s.sent + n <= Total(Eligible(s, s.L)))
    /\ Upd(k, [s EXCEPT !.sent = @ + n])

ReqsNow(s) == {d \in s.rq : d.lo <= s.L /\ s.L <= d.hi}
Received(k, n, ok) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, Open(s) /\ s.co /\ ~s.want)
    /\ Rq({"C22"}, /\ ok /\ n >= 1 /\ s.rcvd + n <= s.wrote[s.L]
                   /\ ReqsNow(s) # {})
    /\ Upd(k, [s EXCEPT !.rcvd = @ + n,
                 !.rq = {[d EXCEPT !.sure = FALSE] : d \in {d \in s.rq : ~(d.old \/ d.w = 1) \/ d.lo > s.L}}])
   

Closed(k, v) ==
    LET s == S(k) IN
    /\ Rq({"C23"}, /\ v /\ Open(s) /\ ~s.want
                   /\ s.closeCalled \/ s.er = 1 \/ s.pend[s.L] \/ s.shutCalled)
    \* What was damaged is never taken for a normal end.
    /\ Rq({"C25"}, s.bad[s.L] /\ s.whole[s.L] /\ s.eof /\ ~s.closeCalled /\ ~s.shutCalled => s.er = 1)
    /\ Upd(k, [s EXCEPT !.m = s.L, !.closeSure = FALSE, !.shutSure = FALSE,
                 !.rq = {d \in s.rq : d.hi > s.L}])
   

(**************************************************************************************)
(* The remote end. *)

\* One more segment: n bytes of the call c (mod 16) beginning from o (mod 16).
Extend(s, L, h, c, o, n) ==
    IF h.cur # 0 THEN
        LET d == CHOOSE d \in s.snd : d.c = h.cur IN
        IF d.c % 16 = c /\ h.off % 16 = o /\ h.off + n <= d.n
        THEN {IF h.off + n = d.n THEN [cur |-> 0, off |-> 0, done |-> h.done \cup {d.c}] ELSE [h EXCEPT !.off = @ + n]}
        ELSE {}
    ELSE IF o # 0 THEN {}
    ELSE LET Can == {d \in Eligible(s, L) : /\ d.c % 16 = c /\ n <= d.n /\ d.c \notin h.done
                        /\ \A b \in Eligible(s, L) : b.c \in d.bf /\ b.lo = L /\ b.n > 0 => b.c \in h.done
                        /\ \A j \in 1..Len(s.hyp) : j # L => \E g \in s.hyp[j] : d.c \notin g.done /\ d.c # g.cur} IN
         {IF n = d.n THEN [h EXCEPT !.done = @ \cup {d.c}] ELSE [h EXCEPT !.cur = d.c, !.off = n] : d \in Can}
RECURSIVE ExtendAll(_, _, _, _)
ExtendAll(s, L, H, segs) ==
    IF segs = <<>> THEN H
    ELSE ExtendAll(s, L, UNION {Extend(s, L, h, segs[1][1], segs[1][2], segs[1][3]) : h \in H}, Tail(segs))

PeerGot(k, L, n, segs) ==
    LET s == S(k)
        H == ExtendAll(s, L, s.hyp[L], segs) IN
    /\ Rq({"C22"}, H # {})
    /\ Upd(k, [s EXCEPT !.hyp[L] = H, !.got[L] = @ + n])
PeerWrote(k, L, n) == Upd(k, [S(k) EXCEPT !.wrote[L] = @ + n])
\* The next bytes are damaged. And nothing after them counts as written.
PeerCorrupt(k, L) == Upd(k, [S(k) EXCEPT !.pend[L] = TRUE, !.bad[L] = TRUE])
\* The remote end failed to decrypt.
PeerFailed(k, L) ==
    /\ Rq({"C25"}, S(k).bad[L] \/ (L = S(k).L /\ S(k).doom) \/ L < S(k).L)
    /\ UNCHANGED tvars
PeerWhole(k, L) == Upd(k, [S(k) EXCEPT !.whole[L] = TRUE])
ReadEnd(k) == Upd(k, [S(k) EXCEPT !.eof = TRUE])
PeerEnd(k, L) == Upd(k, [S(k) EXCEPT !.pend[L] = TRUE])
PeerSawEnd(k, L) == UNCHANGED tvars

(**************************************************************************************)
(* Nothing is going to happen on its own.
   cs: the socket's end of the connection: 0 - none, 1 - connecting, 2 - connected, 3 - dead,
   4 - none, and the resolver of names doesn't answer;
   rx: bytes to read, fin: end of stream to read, rst: was reset, pa: the remote end exists,
   drain: the remote end reads everything, flushed: it sent everything (and is connected). *)
Idle(k, cs, rx, fin, rst, pa, drain, flushed, uring) ==
    LET s == S(k)
        Reqs == {d \in ReqsNow(s) : d.sure /\ d.ret /\ d.lo = s.L /\ d.hi = s.L}
        Wait == Reqs # {}
        Sure == {d \in s.snd : d.ret /\ d.lo = s.L /\ d.hi = s.L /\ d.n > 0}
        Calm == ~s.closeCalled /\ s.er = 0 /\ ~s.shutCalled IN
    /\ Open(s) =>
         /\ Rq({"C23"}, /\ ~s.closeSure
                        /\ s.er = 0 /\ ~s.ce /\ ~s.want
                        /\ s.shutSure /\ s.co => uring /\ ~Wait
                        /\ rst => uring /\ ~Wait
                        /\ cs = 3 /\ ~rst => s.co
                        \* The handshake needs the remote end.
                        /\ cs = 2 => s.co \/ (s.tls = 1 /\ (~(pa /\ drain) \/ s.shutCalled))
                        /\ cs = 2 /\ drain => ~s.doom
                        /\ cs = 2 /\ Wait /\ s.bad[s.L] => ~flushed
                        /\ cs = 4 => s.pa >= 0 /\ ~s.closeCalled
                        /\ cs = 0 => s.kind = "task" /\ (~s.tc \/ s.closeCalled)
                        /\ Wait => ~fin)
         /\ Rq({"C22"}, /\ cs = 2 /\ s.co /\ Wait => rx = 0
                        /\ cs = 2 /\ s.co /\ Wait /\ pa /\ flushed /\ ~s.pend[s.L] => s.rcvd = s.wrote[s.L]
                        /\ cs = 2 /\ s.co /\ Calm /\ pa /\ drain /\ ~s.pend[s.L] =>
                             /\ \E h \in s.hyp[s.L] : h.cur = 0 /\ \A d \in Sure : d.c \in h.done
                             /\ s.sent = s.got[s.L])
    /\ UNCHANGED tvars
=============================================================================
