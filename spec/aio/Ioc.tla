-------------------------------- MODULE Ioc --------------------------------
(* Tasks of the IO core as their owners see them (C21). A task is free (never posted), being
   posted (pin; rpin if it was used before), in the core (in), executed (run), executed the last time (crun), closed (done).
   The actions are the observable events; what they return tells whether the event is allowed. *)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANT INF

VARIABLES
    life,
    sock,     \* has a socket
    dl,       \* deadline
    wcalls,   \* wakeup calls in progress which must lead to an execution
    owed,     \* a finished wakeup call did not lead to an execution yet
    pend,     \* close calls in progress
    ccalls,   \* those of them which must lead to closing of the present life
    cmay, cmust,
    post,     \* number of the last post call
    att,      \* surely counted by the core
    rdp, sdp, \* a read / a write waits for the kernel
    unread,   \* written by the peer, not read
    flight,   \* written, not read by the peer
    eof,      \* the peer will not write any more
    hup,      \* the peer is gone
    waits,    \* waits for emptiness: [h, lim, z]
    ended,    \* lives ended since the last moment when everything was blocked
    run,      \* 2 the core works, 1 it is being stopped, 0 stopped
    now

ivars == <<life, sock, dl, wcalls, owed, pend, ccalls, cmay, cmust, post, att, rdp, sdp, unread,
           flight, eof, hup, waits, ended, run, now>>
task  == <<life, sock, dl, wcalls, owed, pend, ccalls, cmay, cmust, post, att>>
io    == <<rdp, sdp, unread, flight, eof, hup>>

Task == DOMAIN life
All(T, v) == [k \in T |-> v]

IocInit(T) ==
    /\ life = All(T, "free") /\ sock = All(T, FALSE) /\ dl = All(T, INF)
    /\ wcalls = All(T, {}) /\ owed = All(T, FALSE)
    /\ pend = All(T, {}) /\ ccalls = All(T, {}) /\ cmay = All(T, FALSE) /\ cmust = All(T, FALSE)
    /\ post = All(T, 0) /\ att = All(T, FALSE)
    /\ rdp = All(T, FALSE) /\ sdp = All(T, FALSE) /\ unread = All(T, 0) /\ flight = All(T, 0)
    /\ eof = All(T, FALSE) /\ hup = All(T, FALSE)
    /\ waits = {} /\ ended = 0 /\ run = 0 /\ now = 0

SetClock(t) == now' = IF t > now THEN t ELSE now

\* Calls during a repeated post may come too early to matter.
Live(k) == life[k] \in {"free", "pin", "in", "run"}

Post(k, c, s) ==
    /\ life[k] \in {"free", "crun"}
    /\ life' = [life EXCEPT ![k] = IF @ = "free" THEN "pin" ELSE "rpin"]
    /\ sock' = [sock EXCEPT ![k] = s]
    /\ post' = [post EXCEPT ![k] = c]
    /\ IF life[k] = "crun"
       THEN \* A new life. Calls which began in the old one may be noticed or not.
            /\ wcalls' = [wcalls EXCEPT ![k] = {}]
            /\ owed' = [owed EXCEPT ![k] = FALSE]
            /\ ccalls' = [ccalls EXCEPT ![k] = {}]
            /\ cmay' = [cmay EXCEPT ![k] = pend[k] # {}]
            /\ cmust' = [cmust EXCEPT ![k] = FALSE]
            /\ ended' = ended + 1
       ELSE UNCHANGED <<wcalls, owed, ccalls, cmay, cmust, ended>>
    /\ rdp' = [rdp EXCEPT ![k] = FALSE]
    /\ sdp' = [sdp EXCEPT ![k] = FALSE]
    /\ unread' = [unread EXCEPT ![k] = 0]
    /\ flight' = [flight EXCEPT ![k] = 0]
    /\ eof' = [eof EXCEPT ![k] = FALSE]
    /\ hup' = [hup EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<dl, pend, att, waits, run, now>>

PostRet(k, c) ==
    /\ IF post[k] = c /\ life[k] # "done"
       THEN /\ att' = [att EXCEPT ![k] = TRUE]
            /\ life' = [life EXCEPT ![k] = IF @ \in {"pin", "rpin"} THEN "in" ELSE @]
       ELSE UNCHANGED <<att, life>>
    /\ UNCHANGED <<sock, dl, wcalls, owed, pend, ccalls, cmay, cmust, post, io, waits, ended, run, now>>

WakeCall(k, c) ==
    /\ wcalls' = [wcalls EXCEPT ![k] = IF Live(k) THEN @ \cup {c} ELSE @]
    /\ UNCHANGED <<life, sock, dl, owed, pend, ccalls, cmay, cmust, post, att, io, waits, ended, run, now>>
WakeRet(k, c) ==
    /\ owed' = [owed EXCEPT ![k] = @ \/ c \in wcalls[k]]
    /\ wcalls' = [wcalls EXCEPT ![k] = @ \ {c}]
    /\ UNCHANGED <<life, sock, dl, pend, ccalls, cmay, cmust, post, att, io, waits, ended, run, now>>

CloseCall(k, c) ==
    /\ pend' = [pend EXCEPT ![k] = @ \cup {c}]
    /\ IF Live(k)
       THEN /\ ccalls' = [ccalls EXCEPT ![k] = @ \cup {c}]
            /\ cmay' = [cmay EXCEPT ![k] = TRUE]
       ELSE /\ cmay' = [cmay EXCEPT ![k] = @ \/ life[k] = "rpin"]
            /\ UNCHANGED ccalls
    /\ UNCHANGED <<life, sock, dl, wcalls, owed, cmust, post, att, io, waits, ended, run, now>>
CloseRet(k, c) ==
    /\ cmust' = [cmust EXCEPT ![k] = @ \/ c \in ccalls[k]]
    /\ ccalls' = [ccalls EXCEPT ![k] = @ \ {c}]
    /\ pend' = [pend EXCEPT ![k] = @ \ {c}]
    /\ UNCHANGED <<life, sock, dl, wcalls, owed, cmay, post, att, io, waits, ended, run, now>>

\* An execution starts: c - closed, x - expired, s - has a socket. The clock may move by itself
\* if tk is set.
Begin(k, c, x, s, t, tk) ==
    /\ life[k] \in {"pin", "rpin", "in"}
    /\ run > 0
    /\ IF tk THEN x => dl[k] <= t ELSE x = (dl[k] <= t)
    /\ c => cmay[k]
    /\ s = (sock[k] /\ ~c)
    /\ SetClock(t)
    /\ life' = [life EXCEPT ![k] = IF c THEN "crun" ELSE "run"]
    /\ dl' = [dl EXCEPT ![k] = INF]
    /\ wcalls' = [wcalls EXCEPT ![k] = {}]
    /\ owed' = [owed EXCEPT ![k] = FALSE]
    /\ rdp' = [rdp EXCEPT ![k] = @ /\ ~c]
    /\ sdp' = [sdp EXCEPT ![k] = @ /\ ~c]
    /\ UNCHANGED <<sock, pend, ccalls, cmay, cmust, post, att, unread, flight, eof, hup, waits, ended, run>>
End(k) ==
    /\ life[k] = "run"
    /\ life' = [life EXCEPT ![k] = "in"]
    /\ UNCHANGED <<sock, dl, wcalls, owed, pend, ccalls, cmay, cmust, post, att, io, waits, ended, run, now>>
Counted == {k \in Task : att[k]}
CloseEnd(k) ==
    /\ life[k] = "crun"
    /\ life' = [life EXCEPT ![k] = "done"]
    /\ att' = [att EXCEPT ![k] = FALSE]
    /\ dl' = [dl EXCEPT ![k] = INF]
    /\ ended' = ended + 1
    /\ waits' = IF Counted = {k} THEN {[w EXCEPT !.z = TRUE] : w \in waits} ELSE waits
    /\ UNCHANGED <<sock, wcalls, owed, pend, ccalls, cmay, cmust, post, io, run, now>>

SetDeadline(k, v) ==
    /\ dl' = [dl EXCEPT ![k] = IF v < @ THEN v ELSE @]
    /\ UNCHANGED <<life, sock, wcalls, owed, pend, ccalls, cmay, cmust, post, att, io, waits, ended, run, now>>
Attach(k) ==
    /\ life[k] = "run" /\ ~sock[k]
    /\ sock' = [sock EXCEPT ![k] = TRUE]
    /\ UNCHANGED <<life, dl, wcalls, owed, pend, ccalls, cmay, cmust, post, att, io, waits, ended, run, now>>

----------------------------------------------------------------------------
\* IO
Read(k, n) ==
    /\ life[k] = "run"
    /\ IF n = 0 THEN eof[k] /\ unread[k] = 0 ELSE n <= unread[k]
    /\ unread' = [unread EXCEPT ![k] = @ - n]
    /\ rdp' = [rdp EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<task, sdp, flight, eof, hup, waits, ended, run, now>>
ReadFail(k) ==
    /\ life[k] = "run" /\ hup[k]
    /\ rdp' = [rdp EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<task, sdp, unread, flight, eof, hup, waits, ended, run, now>>
ReadWait(k, b) ==
    /\ life[k] = "run"
    /\ rdp' = [rdp EXCEPT ![k] = b]
    /\ UNCHANGED <<task, sdp, unread, flight, eof, hup, waits, ended, run, now>>
Sent(k, n) ==
    /\ life[k] = "run" /\ n > 0
    /\ flight' = [flight EXCEPT ![k] = @ + n]
    /\ sdp' = [sdp EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<task, rdp, unread, eof, hup, waits, ended, run, now>>
SendFail(k) ==
    /\ life[k] = "run" /\ hup[k]
    /\ sdp' = [sdp EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<task, rdp, unread, flight, eof, hup, waits, ended, run, now>>
SendWait(k, b) ==
    /\ life[k] = "run"
    /\ sdp' = [sdp EXCEPT ![k] = b]
    /\ UNCHANGED <<task, rdp, unread, flight, eof, hup, waits, ended, run, now>>
\* The kernel reports an error.
Broken(k) ==
    /\ life[k] = "run" /\ hup[k]
    /\ rdp' = [rdp EXCEPT ![k] = FALSE]
    /\ sdp' = [sdp EXCEPT ![k] = FALSE]
    /\ UNCHANGED <<task, unread, flight, eof, hup, waits, ended, run, now>>
PeerWrite(k, n) ==
    /\ unread' = [unread EXCEPT ![k] = @ + n]
    /\ UNCHANGED <<task, rdp, sdp, flight, eof, hup, waits, ended, run, now>>
PeerRead(k, n) ==
    /\ flight' = [flight EXCEPT ![k] = @ - n]
    /\ UNCHANGED <<task, rdp, sdp, unread, eof, hup, waits, ended, run, now>>
PeerEnd(k, all) ==
    /\ eof' = [eof EXCEPT ![k] = TRUE]
    /\ hup' = [hup EXCEPT ![k] = @ \/ all]
    /\ UNCHANGED <<task, rdp, sdp, unread, flight, waits, ended, run, now>>

----------------------------------------------------------------------------
Starting == run' = 2 /\ UNCHANGED <<task, io, waits, ended, now>>
Stopping == run' = 1 /\ UNCHANGED <<task, io, waits, ended, now>>
Stopped ==
    /\ \A k \in Task : life[k] \notin {"run", "crun"}
    /\ run' = 0 /\ UNCHANGED <<task, io, waits, ended, now>>

WaitCall(h, t, lim) ==
    /\ waits' = waits \cup {[h |-> h, lim |-> lim, z |-> Counted = {}]}
    /\ SetClock(t)
    /\ UNCHANGED <<task, io, ended, run>>
WaitRet(h, v, t) ==
    /\ \E w \in waits :
          /\ w.h = h
          /\ IF v = 0 THEN w.z
             ELSE /\ t >= w.lim
                  /\ v <= Cardinality({k \in Task : life[k] \in {"pin", "rpin", "in", "run", "crun"}}) + ended
          /\ waits' = waits \ {w}
    /\ SetClock(t)
    /\ UNCHANGED <<task, io, ended, run>>

----------------------------------------------------------------------------
\* Everything is blocked, and the clock is about to move to the moment 'to' (INF: nothing will
\* ever happen). Nothing may be left undone.
Settled(to, tk) ==
    /\ run # 1
    /\ run = 2 => \A k \in Task :
        /\ life[k] \notin {"pin", "rpin", "run", "crun"}
        /\ life[k] = "in" =>
             /\ ~owed[k]
             /\ ~cmust[k]
             /\ (dl[k] > now /\ dl[k] >= to) \/ (tk /\ to # INF)
             /\ ~(rdp[k] /\ (unread[k] > 0 \/ eof[k]))
             /\ ~(sdp[k] /\ (flight[k] <= 0 \/ hup[k]))
Idle(to, tk) ==
    /\ Settled(to, tk)
    /\ ended' = 0
    /\ IF to = INF THEN now' = now ELSE SetClock(to)
    /\ UNCHANGED <<task, io, waits, run>>
Tick(to) == SetClock(to) /\ UNCHANGED <<task, io, waits, ended, run>>
Deleted(k) == life[k] \in {"free", "done"} /\ UNCHANGED ivars
=============================================================================
