------------------------------ MODULE IocImpl ------------------------------
(* The algorithm of the IO core (epoll flavour), one atomic operation per step: the status
   machine of the tasks, the queues, the election of the scheduler, the signals (C21).

   A task is always in at most one place: loc. The timer queue (heap) is separate: a task may
   be both in it and in the front queue. *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Task, Worker, Caller,
    Script,    \* what each caller does: a set of <<"wake"|"close", task>>, in any order
    MaxEv,     \* kernel events
    MaxDl,     \* deadlines to be set
    WithStop   \* the core is stopped at some moment

VARIABLES
    st,      \* status of the task
    loc,     \* "front" queue, "schedp" pending in the scheduler, "idle" waits, "sready", "readyq", "exec", "none" finished
    heap,
    dl,      \* "inf", "set", "due"
    kev, pev, rev,   \* events in the kernel, seen by the scheduler, given to the worker
    guard, isClosed,
    evfd, sig,       \* signals to the scheduler, to the workers
    sched,           \* who is the scheduler
    snap,            \* whose deadline was due when the scheduler looked at the clock
    evs,             \* kernel events the scheduler took
    wpc, wt,         \* workers: what they do, with which task
    stopw, running,  \* stop is requested from the worker; the core is not being stopped
    spc, sleft,      \* Stop()
    cpc, cop, cold, cdo,  \* callers
    nev, ndl,
    \* Ghosts.
    must,    \* the wakeup of the caller must lead to an execution
    owed,    \* finished wakeups did
    cmust,   \* closing is owed
    evOwed,  \* a kernel event must be delivered
    execs, bad

ivars == <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wpc, wt,
    stopw, running, spc, sleft, cpc, cop, cold, cdo, nev, ndl, must, owed, cmust, evOwed, execs, bad>>

None == "none"
Init ==
    /\ st = [t \in Task |-> "PENDING"] /\ loc = [t \in Task |-> "front"]
    /\ heap = {} /\ dl = [t \in Task |-> "inf"]
    /\ kev = {} /\ pev = {} /\ rev = {} /\ guard = {} /\ isClosed = {}
    /\ evfd = TRUE /\ sig = FALSE /\ sched = None /\ snap = {} /\ evs = {}
    /\ wpc = [w \in Worker |-> "top"] /\ wt = [w \in Worker |-> None]
    /\ stopw = {} /\ running = TRUE /\ spc = "idle" /\ sleft = Worker
    /\ cpc = [c \in Caller |-> "idle"] /\ cop = [c \in Caller |-> <<None, None>>]
    /\ cold = [c \in Caller |-> None] /\ cdo = Script
    /\ nev = 0 /\ ndl = 0
    /\ must = [c \in Caller |-> FALSE] /\ owed = [t \in Task |-> FALSE] /\ cmust = [t \in Task |-> FALSE]
    /\ evOwed = {} /\ execs = [t \in Task |-> 0] /\ bad = FALSE

\* ---- The common pieces.
\* Push to the front queue: whether it was empty.
FrontEmpty == \A t \in Task : loc[t] # "front"

wun == <<stopw, running, spc, sleft, cpc, cop, cold, cdo, nev, ndl>>     \* what workers do not touch
gun == <<must, owed, cmust, evOwed, execs>>

Goto(w, pc) == wpc' = [wpc EXCEPT ![w] = pc]

W1(w) == \* top of the loop
    \/ /\ wpc[w] = "top"
       /\ Goto(w, IF w \in stopw THEN "end1" ELSE "tryS")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun, bad>>
    \/ /\ wpc[w] = "tryS"
       /\ IF sched = None THEN sched' = w /\ Goto(w, "s1") ELSE UNCHANGED sched /\ Goto(w, "pop")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, snap, evs, wt, wun, gun, bad>>
    \/ \* epoll_wait(0) and the clock
       /\ wpc[w] = "s1"
       /\ evs' = kev /\ kev' = {} /\ evfd' = FALSE
       /\ snap' = {t \in Task : dl[t] = "due"}
       /\ Goto(w, "s2")
       /\ UNCHANGED <<st, loc, heap, dl, pev, rev, guard, isClosed, sig, sched, wt, wun, gun, bad>>
    \/ \* PopAll
       /\ wpc[w] = "s2"
       /\ loc' = [t \in Task |-> IF loc[t] = "front" THEN "schedp" ELSE loc[t]]
       /\ Goto(w, "s3")
       /\ UNCHANGED <<st, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun, bad>>

W2(w) == \* kernel events
    /\ wpc[w] = "s3"
    /\ IF evs = {}
       THEN /\ Goto(w, "s4")
            /\ UNCHANGED <<st, loc, heap, pev, rev, evs, bad>>
       ELSE \E t \in evs :
            /\ evs' = evs \ {t}
            /\ bad' = (bad \/ st[t] = "CLOSED")
            /\ IF st[t] = "WAITING"
               THEN /\ st' = [st EXCEPT ![t] = "READY"]
                    /\ heap' = heap \ {t}
                    /\ rev' = rev \cup {t} /\ pev' = pev \ {t}
                    /\ loc' = [loc EXCEPT ![t] = "sready"]
               ELSE /\ pev' = pev \cup {t} /\ UNCHANGED <<st, heap, rev, loc>>
            /\ UNCHANGED wpc
    /\ UNCHANGED <<dl, kev, guard, isClosed, evfd, sig, sched, snap, wt, wun, gun>>

Due(t) == t \in snap /\ dl[t] = "due"

W3(w) == \* the front queue
    /\ wpc[w] = "s4"
    /\ IF \A t \in Task : loc[t] # "schedp"
       THEN Goto(w, "s5") /\ UNCHANGED <<st, loc, heap, kev, pev, rev, isClosed, evOwed, bad>>
       ELSE \E t \in Task :
         /\ loc[t] = "schedp"
         /\ UNCHANGED wpc
         /\ LET go == t \in pev \/ Due(t) IN
            IF ~go /\ st[t] = "PENDING"
            THEN /\ st' = [st EXCEPT ![t] = "WAITING"]
                 /\ heap' = IF dl[t] = "inf" THEN heap ELSE heap \cup {t}
                 /\ loc' = [loc EXCEPT ![t] = "idle"]
                 /\ UNCHANGED <<kev, pev, rev, isClosed, evOwed, bad>>
            ELSE /\ bad' = (bad \/ st[t] \in {"CLOSED", "WAITING"})
                 /\ heap' = heap \ {t}
                 /\ loc' = [loc EXCEPT ![t] = "sready"]
                 /\ pev' = pev \ {t}
                 /\ IF st[t] = "CLOSING"
                    THEN /\ kev' = kev \ {t} /\ isClosed' = isClosed \cup {t}
                         /\ st' = [st EXCEPT ![t] = "CLOSED"]
                         /\ rev' = rev \ {t} /\ evOwed' = evOwed \ {t}
                    ELSE /\ st' = [st EXCEPT ![t] = IF @ = "PENDING" THEN "READY" ELSE @]
                         /\ rev' = IF t \in pev THEN rev \cup {t} ELSE rev
                         /\ UNCHANGED <<kev, isClosed, evOwed>>
    /\ UNCHANGED <<dl, guard, evfd, sig, sched, snap, evs, wt, wun, must, owed, cmust, execs>>

W4(w) ==
    \/ \* timers
       /\ wpc[w] = "s5"
       /\ IF \A t \in heap : ~Due(t)
          THEN Goto(w, "s6") /\ UNCHANGED <<st, loc, heap, bad>>
          ELSE \E t \in heap :
               /\ Due(t)
               /\ heap' = heap \ {t}
               /\ IF st[t] = "WAITING"
                  THEN st' = [st EXCEPT ![t] = "READY"] /\ loc' = [loc EXCEPT ![t] = "sready"] /\ UNCHANGED bad
                  ELSE bad' = (bad \/ st[t] \in {"CLOSED", "PENDING"}) /\ UNCHANGED <<st, loc>>
               /\ UNCHANGED wpc
       /\ UNCHANGED <<dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun>>
    \/ \* give the tasks to the workers
       /\ wpc[w] = "s6"
       /\ bad' = (bad \/ \E t \in heap : loc[t] = "sready")
       /\ loc' = [t \in Task |-> IF loc[t] = "sready" THEN "readyq" ELSE loc[t]]
       /\ Goto(w, "s6b")
       /\ UNCHANGED <<st, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun>>
    \/ /\ wpc[w] = "s6b"
       /\ Goto(w, IF \E t \in Task : loc[t] \in {"readyq", "schedp"} THEN "s9" ELSE "s7")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun, bad>>
    \/ \* is the core being stopped?
       /\ wpc[w] = "s7"
       /\ Goto(w, IF ~running THEN "sret" ELSE "s8")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun, bad>>
    \/ \* poll
       /\ wpc[w] = "s8"
       /\ evfd \/ kev # {} \/ \E t \in heap : dl[t] = "due"
       /\ Goto(w, "sret")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun, bad>>
    \/ /\ wpc[w] = "sret"
       /\ Goto(w, IF w \in stopw THEN "e9" ELSE "s1")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun, bad>>
    \/ \* the end of scheduling
       /\ wpc[w] \in {"s9", "e9"}
       /\ sched' = None /\ Goto(w, IF wpc[w] = "s9" THEN "s10" ELSE "e10")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, snap, evs, wt, wun, gun, bad>>
    \/ /\ wpc[w] \in {"s10", "e10"}
       /\ sig' = TRUE /\ Goto(w, IF wpc[w] = "s10" THEN "pop" ELSE "end1")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sched, snap, evs, wt, wun, gun, bad>>

W5(w) == \* execution
    \/ /\ wpc[w] = "pop"
       /\ \/ /\ \A t \in Task : loc[t] # "readyq"
             /\ Goto(w, "wait") /\ UNCHANGED <<loc, wt>>
          \/ \E t \in Task : loc[t] = "readyq" /\ loc' = [loc EXCEPT ![t] = "exec"]
                 /\ wt' = [wt EXCEPT ![w] = t] /\ Goto(w, "ex1")
       /\ UNCHANGED <<st, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wun, gun, bad>>
    \/ /\ wpc[w] = "ex1"
       /\ st' = [st EXCEPT ![wt[w]] = IF @ = "READY" THEN "PENDING" ELSE @]
       /\ bad' = (bad \/ st[wt[w]] \in {"PENDING", "WAITING"})
       /\ Goto(w, "ex2")
       /\ UNCHANGED <<loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt, wun, gun>>
    \/ \* OnEvent() begins
       /\ wpc[w] = "ex2"
       /\ LET t == wt[w] IN
          /\ dl' = [dl EXCEPT ![t] = "inf"] /\ snap' = snap \ {t}
          /\ bad' = (bad \/ (t \in isClosed) # (st[t] = "CLOSED"))
          /\ owed' = [owed EXCEPT ![t] = FALSE]
          /\ must' = [c \in Caller |-> must[c] /\ cop[c][2] # t]
          /\ cmust' = [cmust EXCEPT ![t] = @ /\ t \notin isClosed]
          /\ evOwed' = evOwed \ rev
          /\ rev' = rev \ {t}
          /\ execs' = [execs EXCEPT ![t] = IF t \in isClosed THEN 2 ELSE @]
          /\ IF t \in isClosed THEN loc' = [loc EXCEPT ![t] = None] /\ wt' = [wt EXCEPT ![w] = None] /\ Goto(w, "pop")
                               ELSE UNCHANGED <<loc, wt>> /\ Goto(w, "ex3")
       /\ UNCHANGED <<st, heap, kev, pev, guard, isClosed, evfd, sig, sched, evs, wun>>
    \/ \* OnEvent() may set a deadline
       /\ wpc[w] = "ex3"
       /\ \/ UNCHANGED <<dl, ndl>>
          \/ ndl < MaxDl /\ ndl' = ndl + 1 /\ dl' = [dl EXCEPT ![wt[w]] = "set"]
       /\ Goto(w, "ex4")
       /\ UNCHANGED <<st, loc, heap, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wt,
                      stopw, running, spc, sleft, cpc, cop, cold, cdo, nev, gun, bad>>
    \/ \* PrivPost()
       /\ wpc[w] = "ex4"
       /\ bad' = (bad \/ loc[wt[w]] # "exec")
       /\ loc' = [loc EXCEPT ![wt[w]] = "front"]
       /\ wt' = [wt EXCEPT ![w] = None]
       /\ Goto(w, IF FrontEmpty THEN "ex5" ELSE "pop")
       /\ UNCHANGED <<st, heap, dl, kev, pev, rev, guard, isClosed, evfd, sig, sched, snap, evs, wun, gun>>
    \/ /\ wpc[w] = "ex5" /\ evfd' = TRUE /\ Goto(w, "pop")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, sig, sched, snap, evs, wt, wun, gun, bad>>
    \/ /\ wpc[w] = "wait" /\ sig /\ sig' = FALSE /\ Goto(w, "top")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sched, snap, evs, wt, wun, gun, bad>>
    \/ /\ wpc[w] = "end1" /\ sig' = TRUE /\ Goto(w, "end2")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, evfd, sched, snap, evs, wt, wun, gun, bad>>
    \/ /\ wpc[w] = "end2" /\ evfd' = TRUE /\ Goto(w, "done")
       /\ UNCHANGED <<st, loc, heap, dl, kev, pev, rev, guard, isClosed, sig, sched, snap, evs, wt, wun, gun, bad>>

WorkerStep(w) == W1(w) \/ W2(w) \/ W3(w) \/ W4(w) \/ W5(w)

----------------------------------------------------------------------------
kun == <<heap, dl, kev, pev, rev, isClosed, sig, sched, snap, evs, wpc, wt, stopw, running, spc, sleft, nev, ndl, evOwed, execs>>
CGoto(c, pc) == cpc' = [cpc EXCEPT ![c] = pc]
\* The call is over.
Ret(c) ==
    /\ cpc' = [cpc EXCEPT ![c] = "idle"]
    /\ owed' = IF cop[c][1] = "wake" /\ must[c] THEN [owed EXCEPT ![cop[c][2]] = TRUE] ELSE owed
    /\ cmust' = IF cop[c][1] = "close" /\ execs[cop[c][2]] = 0 THEN [cmust EXCEPT ![cop[c][2]] = TRUE] ELSE cmust
    /\ must' = [must EXCEPT ![c] = FALSE]
Go(c, pc) == CGoto(c, pc) /\ UNCHANGED <<owed, cmust, must>>

CallerStep(c) == LET t == cop[c][2] IN
    \/ /\ cpc[c] = "idle"
       /\ \E o \in cdo[c] :
            /\ cdo' = [cdo EXCEPT ![c] = @ \ {o}]
            /\ cop' = [cop EXCEPT ![c] = o]
            /\ must' = [must EXCEPT ![c] = o[1] = "wake" /\ execs[o[2]] = 0]
            /\ CGoto(c, IF o[1] = "wake" THEN "k1" ELSE "q1")
       /\ UNCHANGED <<st, loc, guard, evfd, cold, owed, cmust, bad, kun>>
    \/ \* PostWakeup()
       /\ cpc[c] = "k1"
       /\ IF st[t] = "WAITING" THEN st' = [st EXCEPT ![t] = "READY"] /\ Go(c, "p1") /\ UNCHANGED cold
          ELSE /\ UNCHANGED st /\ cold' = [cold EXCEPT ![c] = st[t]]
               /\ IF st[t] = "PENDING" THEN Go(c, "k2") ELSE Ret(c)
       /\ UNCHANGED <<loc, guard, evfd, cop, cdo, bad, kun>>
    \/ /\ cpc[c] = "k2"
       /\ IF st[t] = cold[c]
          THEN /\ st' = [st EXCEPT ![t] = "READY"] /\ UNCHANGED cold
               /\ IF cold[c] = "WAITING" THEN Go(c, "p1") ELSE Ret(c)
          ELSE /\ UNCHANGED st /\ cold' = [cold EXCEPT ![c] = st[t]]
               /\ IF st[t] \in {"PENDING", "WAITING"} THEN UNCHANGED <<cpc, owed, cmust, must>> ELSE Ret(c)
       /\ UNCHANGED <<loc, guard, evfd, cop, cdo, bad, kun>>
    \/ \* PostClose()
       /\ cpc[c] = "q1"
       /\ guard' = guard \cup {t}
       /\ IF t \in guard THEN CGoto(c, "idle") /\ UNCHANGED <<owed, cmust, must>> ELSE Go(c, "q2")
       /\ UNCHANGED <<st, loc, evfd, cop, cold, cdo, bad, kun>>
    \/ /\ cpc[c] = "q2"
       /\ st' = [st EXCEPT ![t] = "CLOSING"]
       /\ bad' = (bad \/ st[t] \in {"CLOSED", "CLOSING"})
       /\ IF st[t] = "WAITING" THEN Go(c, "p1") ELSE Ret(c)
       /\ UNCHANGED <<loc, guard, evfd, cop, cold, cdo, kun>>
    \/ \* PrivRePost()
       /\ cpc[c] = "p1"
       /\ bad' = (bad \/ loc[t] # "idle")
       /\ loc' = [loc EXCEPT ![t] = "front"]
       /\ IF FrontEmpty THEN Go(c, "p2") ELSE Ret(c)
       /\ UNCHANGED <<st, guard, evfd, cop, cold, cdo, kun>>
    \/ /\ cpc[c] = "p2"
       /\ evfd' = TRUE /\ Ret(c)
       /\ UNCHANGED <<st, loc, guard, cop, cold, cdo, bad, kun>>

----------------------------------------------------------------------------
eun == <<st, loc, heap, pev, rev, guard, isClosed, sched, snap, evs, wpc, wt, cpc, cop, cold, cdo, must, owed, cmust, execs, bad>>
KernelEvent(t) ==
    /\ nev < MaxEv /\ nev' = nev + 1
    /\ t \notin isClosed
    /\ kev' = kev \cup {t} /\ evOwed' = evOwed \cup {t}
    /\ UNCHANGED <<eun, dl, evfd, sig, ndl, stopw, running, spc, sleft>>
Expire(t) ==
    /\ dl[t] = "set" /\ dl' = [dl EXCEPT ![t] = "due"]
    /\ UNCHANGED <<eun, kev, evOwed, evfd, sig, nev, ndl, stopw, running, spc, sleft>>
Stop ==
    \/ /\ spc = "idle" /\ WithStop /\ spc' = "a" /\ running' = FALSE
       /\ UNCHANGED <<eun, dl, kev, evOwed, evfd, sig, nev, ndl, stopw, sleft>>
    \/ /\ spc = "a" /\ sleft # {}
       /\ \E w \in sleft : sleft' = sleft \ {w} /\ stopw' = stopw \cup {w}
       /\ UNCHANGED <<eun, dl, kev, evOwed, evfd, sig, nev, ndl, running, spc>>
    \/ /\ spc = "a" /\ sleft = {} /\ evfd' = TRUE /\ spc' = "b"
       /\ UNCHANGED <<eun, dl, kev, evOwed, sig, nev, ndl, stopw, running, sleft>>
    \/ /\ spc = "b" /\ sig' = TRUE /\ spc' = "c"
       /\ UNCHANGED <<eun, dl, kev, evOwed, evfd, nev, ndl, stopw, running, sleft>>

Next ==
    \/ \E w \in Worker : WorkerStep(w)
    \/ \E c \in Caller : CallerStep(c)
    \/ \E t \in Task : KernelEvent(t) \/ Expire(t)
    \/ Stop

Fair == (\A w \in Worker : WF_ivars(WorkerStep(w))) /\ (\A c \in Caller : WF_ivars(CallerStep(c))) /\ WF_ivars(Stop)
        /\ \A t \in Task : WF_ivars(Expire(t))
Spec == Init /\ [][Next]_ivars /\ Fair

\* ---- What must hold.
\* No internal contradiction: nothing is pushed twice, executed by two workers, lost, touched
\* after it is closed.
Sound == ~bad /\ \A w, v \in Worker : w # v /\ wt[w] # None => wt[w] # wt[v]
\* When everything sleeps nothing is left undone.
Asleep ==
    /\ \A w \in Worker : \/ wpc[w] = "done"
                         \/ wpc[w] = "wait" /\ ~sig
                         \/ wpc[w] = "s8" /\ ~(evfd \/ kev # {} \/ \E t \in heap : dl[t] = "due")
    /\ \A c \in Caller : cpc[c] = "idle" /\ cdo[c] = {}
    /\ WithStop => spc = "c"
Done == Asleep =>
    IF running THEN
        \A t \in Task : /\ loc[t] \in {"idle", None}
                        /\ ~owed[t] /\ ~cmust[t] /\ t \notin evOwed
                        /\ dl[t] # "due"
                        /\ (t \in guard => loc[t] = None)
    ELSE \A w \in Worker : wpc[w] = "done"

Delivered == \A t \in Task :
    /\ (owed[t] ~> (~owed[t] \/ ~running))
    /\ (cmust[t] ~> (~cmust[t] \/ ~running))
    /\ (t \in evOwed ~> (t \notin evOwed \/ ~running))
    /\ (dl[t] = "due" ~> (dl[t] # "due" \/ ~running))
Stops == (spc = "c") ~> (\A w \in Worker : wpc[w] = "done")
=============================================================================
