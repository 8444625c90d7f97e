------------------------------ MODULE SchedImpl ------------------------------
(* The algorithm of the task scheduler, one atomic operation or critical section per step: the
   status machine of the tasks, the front, pending, waiting and ready queues, the migrating
   scheduler role with its interruptible mutex, the two signals, the batches, draining, stopping
   and restarting (C01-C06). The queues, signals and the mutex are taken as their own
   specifications (C08-C11) guarantee them.

   The variables of SchedAbs are carried along as what the users see; Refines says that they
   change only by the steps of SchedAbs. *)
EXTENDS SchedAbs, TLC

CONSTANTS Worker, Caller, NT,
    Script,     \* what every caller does: a sequence of operations
    Deadlines,  \* which the tasks use when they post themselves again
    MaxPost,    \* posts per task
    MaxNow,
    B           \* size of the batches and of the blocks of the ready queue

VARIABLES
    stat, idl, sptr, isExp,          \* fields of the tasks
    front, pend, heap, rpend, rdy,   \* queues
    fsig, rsig,                      \* signals
    mown, mq,                        \* the scheduler mutex and those who wait for it
    pc, arg,                         \* of workers and callers: where it is, with what
    xb,                              \* worker -> tasks executed in the current batch
    sb, stamp, sleepT, sbmax,        \* locals of the scheduler role
    wst, stopw,                      \* worker states, stop requests
    ci, left                         \* callers: position in the script, workers to look at

ivars == <<stat, idl, sptr, isExp, front, pend, heap, rpend, rdy, fsig, rsig, mown, mq, pc, arg, xb,
           sb, stamp, sleepT, sbmax, wst, stopw, ci, left>>
vars == <<avars, ivars>>

Tasks == 1..NT
None == "none"
Nil == [k |-> 0, n |-> 0, o |-> ""]

tv == <<stat, idl, sptr, isExp>>
qv == <<front, pend, heap, rpend, rdy>>
gv == <<fsig, rsig>>
mv == <<mown, mq>>
lv == <<xb, sb, stamp, sleepT, sbmax>>
ov == <<wst, stopw, ci, left>>

\* The scheduler has just been started.
Init ==
    /\ loc = [k \in Tasks |-> "user"] /\ dl = [k \in Tasks |-> 0] /\ st = [k \in Tasks |-> "pend"]
    /\ inst = [k \in Tasks |-> 0] /\ before = [k \in Tasks |-> {}] /\ ops = {}
    /\ now = 0 /\ nw = Cardinality(Worker) /\ act = 0
    /\ stat = [k \in Tasks |-> "PENDING"] /\ idl = [k \in Tasks |-> 0]
    /\ sptr = [k \in Tasks |-> FALSE] /\ isExp = [k \in Tasks |-> FALSE]
    /\ front = <<>> /\ pend = <<>> /\ heap = {} /\ rpend = <<>> /\ rdy = <<>>
    /\ fsig = FALSE /\ rsig = FALSE
    /\ mown = None /\ mq = <<>>
    /\ pc = [a \in Worker \cup Caller |-> IF a \in Worker THEN "top" ELSE "next"]
    /\ arg = [a \in Worker \cup Caller |-> Nil]
    /\ xb = [w \in Worker |-> 0]
    /\ sb = 0 /\ stamp = 0 /\ sleepT = 0 /\ sbmax = B * Cardinality(Worker)
    /\ wst = [w \in Worker |-> "IDLE"] /\ stopw = {}
    /\ ci = [c \in Caller |-> 1] /\ left = [c \in Caller |-> {}]

Goto(a, p) == pc' = [pc EXCEPT ![a] = p]

-----------------------------------------------------------------------------
(* Posting. a is a worker (inside of a callback) or a caller. *)
PostBegin(a, k, d) ==
    /\ inst[k] < MaxPost
    /\ PostCall(k, IF d > 0 /\ d < INF THEN now + d ELSE d, inst[k] + 1)
    /\ idl' = [idl EXCEPT ![k] = IF d > 0 /\ d < INF THEN now + d ELSE d]
    /\ sptr' = [sptr EXCEPT ![k] = TRUE]
    /\ arg' = [arg EXCEPT ![a] = [k |-> k, n |-> inst[k] + 1, o |-> ""]]
    /\ Goto(a, "push")
    /\ UNCHANGED <<stat, isExp, qv, gv, mv, lv, ov, st, ops, now, nw, act>>

Push(a) ==
    /\ pc[a] = "push"
    /\ front' = Append(front, arg[a].k)
    /\ Goto(a, IF front = <<>> THEN "fsend" ELSE "pret")
    /\ UNCHANGED <<avars, tv, pend, heap, rpend, rdy, gv, mv, arg, lv, ov>>
FSend(a) ==
    /\ pc[a] = "fsend"
    /\ fsig' = TRUE
    /\ Goto(a, "pret")
    /\ UNCHANGED <<avars, tv, qv, rsig, mv, arg, lv, ov>>
\* The end of a post, or of a wakeup or signal (then n = 0).
PRet(a) ==
    /\ pc[a] = "pret"
    /\ IF arg[a].n # 0 THEN PostRet(arg[a].k, arg[a].n) ELSE UNCHANGED loc
    /\ arg' = [arg EXCEPT ![a] = Nil]
    /\ Goto(a, IF a \in Worker THEN "ce" ELSE "next")
    /\ UNCHANGED <<dl, st, inst, before, ops, now, nw, act, tv, qv, gv, mv, lv, ov>>

-----------------------------------------------------------------------------
(* Wakeup and signal by a caller. *)
Woken(k) == st' = [st EXCEPT ![k] = IF @ = "pend" THEN "woken" ELSE @]
Signaled(k) == st' = [st EXCEPT ![k] = "sig"]
unSt == <<loc, dl, inst, before, ops, now, nw, act>>

WakeLoad(c) ==
    /\ pc[c] = "wake"
    /\ IF stat[arg[c].k] \in {"SIGNALED", "READY"}
       THEN /\ Woken(arg[c].k) /\ arg' = [arg EXCEPT ![c] = Nil] /\ Goto(c, "next")
       ELSE /\ UNCHANGED st /\ arg' = [arg EXCEPT ![c].o = stat[arg[c].k]] /\ Goto(c, "wcas")
    /\ UNCHANGED <<unSt, tv, qv, gv, mv, lv, ov>>
WakeCas(c) ==
    /\ pc[c] = "wcas"
    /\ LET k == arg[c].k IN
       IF stat[k] = arg[c].o
       THEN /\ stat' = [stat EXCEPT ![k] = "READY"]
            /\ Woken(k)
            /\ arg' = [arg EXCEPT ![c] = IF arg[c].o = "WAITING" THEN [k |-> k, n |-> 0, o |-> ""] ELSE Nil]
            /\ Goto(c, IF arg[c].o = "WAITING" THEN "push" ELSE "next")
       ELSE /\ UNCHANGED <<stat, st, arg>> /\ Goto(c, "wake")
    /\ UNCHANGED <<unSt, idl, sptr, isExp, qv, gv, mv, lv, ov>>
Signal(c) ==
    /\ pc[c] = "sig"
    /\ LET k == arg[c].k IN
       /\ stat' = [stat EXCEPT ![k] = "SIGNALED"]
       /\ Signaled(k)
       /\ arg' = [arg EXCEPT ![c] = IF stat[k] = "WAITING" THEN [k |-> k, n |-> 0, o |-> ""] ELSE Nil]
       /\ Goto(c, IF stat[k] = "WAITING" THEN "push" ELSE "next")
    /\ UNCHANGED <<unSt, idl, sptr, isExp, qv, gv, mv, lv, ov>>

-----------------------------------------------------------------------------
(* The scheduler mutex. *)
\* Lock() of a caller: take it, or wait and interrupt the holder.
Lock(c, p) ==
    IF mown = None
    THEN mown' = c /\ Goto(c, p) /\ UNCHANGED <<mq, fsig>>
    ELSE mq' = Append(mq, [c |-> c, p |-> p]) /\ fsig' = TRUE /\ Goto(c, "lock") /\ UNCHANGED mown
\* Unlock hands it over to the first one who waits. The step after it is a signal to the workers.
Unlock(a, p) ==
    IF mq = <<>>
    THEN mown' = None /\ UNCHANGED mq /\ Goto(a, p)
    ELSE /\ mown' = Head(mq).c /\ mq' = Tail(mq)
         /\ pc' = [pc EXCEPT ![a] = p, ![Head(mq).c] = Head(mq).p]
USend(a, from, to) ==
    /\ pc[a] = from
    /\ rsig' = TRUE /\ Goto(a, to)
    /\ UNCHANGED <<avars, tv, qv, fsig, mv, arg, lv, ov>>

-----------------------------------------------------------------------------
(* IsEmpty(), Stop(), Start(). *)
We(c) == {o \in ops : o.h = c}
EmptyCall(c) ==
    /\ ops' = ops \cup {[h |-> c, op |-> "we", k |-> 0, done |-> FALSE, v |-> FALSE, lim |-> 0]}
    /\ Lock(c, "e1")
    /\ left' = [left EXCEPT ![c] = Worker]
    /\ UNCHANGED <<loc, dl, st, inst, before, now, nw, act, tv, qv, rsig, lv, arg, wst, stopw, ci>>
Empty1(c) == \* the ready queue
    /\ pc[c] = "e1"
    /\ Goto(c, IF rdy # <<>> THEN "eno" ELSE "e2")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, ov>>
Empty2(c) == \* the workers
    /\ pc[c] = "e2"
    /\ IF left[c] = {} THEN Goto(c, "e3") /\ UNCHANGED left
       ELSE \E w \in left[c] :
            /\ left' = [left EXCEPT ![c] = @ \ {w}]
            /\ Goto(c, IF wst[w] # "IDLE" THEN "eno" ELSE "e2")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, wst, stopw, ci>>
Empty3(c) ==
    /\ pc[c] = "e3"
    /\ Goto(c, IF front = <<>> THEN "e4" ELSE "eno")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, ov>>
Empty4(c) == \* nobody else can change these
    /\ pc[c] = "e4"
    /\ Goto(c, IF heap = {} /\ pend = <<>> THEN "eyes" ELSE "eno")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, ov>>
EmptyEnd(c) ==
    /\ pc[c] \in {"eyes", "eno"}
    /\ Unlock(c, IF pc[c] = "eyes" THEN "eyesS" ELSE "enoS")
    /\ UNCHANGED <<avars, tv, qv, gv, arg, lv, ov>>
\* True: there was a moment since the call when the scheduler was empty.
EmptyRet(c) ==
    \/ USend(c, "eyesS", "eyesR")
    \/ USend(c, "enoS", "enoR")
    \/ /\ pc[c] \in {"eyesR", "enoR"}
       /\ ops' = ops \ We(c)
       /\ Goto(c, "next")
       /\ UNCHANGED <<loc, dl, st, inst, before, now, nw, act, tv, qv, gv, mv, arg, lv, ov>>
Observe(c) == \* ghost
    /\ pc[c] \notin {"next", "eyesR", "enoR"}
    /\ \E o \in We(c) : EmptyLin(o)
    /\ UNCHANGED <<loc, dl, st, inst, before, now, nw, act, ivars>>

StopCall(c) ==
    /\ Lock(c, "st1")
    /\ UNCHANGED <<avars, tv, qv, rsig, arg, lv, ov>>
Stop1(c) ==
    /\ pc[c] = "st1"
    /\ stopw' = {w \in Worker : pc[w] # "dead"} /\ sbmax' = B
    /\ Goto(c, "st2")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, xb, sb, stamp, sleepT, wst, ci, left>>
Stop2(c) == USend(c, "st2", "st3")
Stop3(c) == \* joined
    /\ pc[c] = "st3" /\ \A w \in Worker : pc[w] = "dead"
    /\ stopw' = {}
    /\ nw' = 0
    /\ Unlock(c, "st4")
    /\ UNCHANGED <<loc, dl, st, inst, before, ops, now, act, tv, qv, gv, arg, lv, wst, ci, left>>
Stop4(c) == USend(c, "st4", "next")

StartCall(c) ==
    /\ Lock(c, "go1")
    /\ UNCHANGED <<avars, tv, qv, rsig, arg, lv, ov>>
Start1(c) ==
    /\ pc[c] = "go1"
    /\ sbmax' = B * Cardinality(Worker)
    /\ nw' = Cardinality(Worker)
    /\ pc' = [a \in DOMAIN pc |-> IF a \in Worker THEN "top" ELSE IF a = c THEN "go2" ELSE pc[a]]
    /\ wst' = [w \in Worker |-> "IDLE"]
    /\ UNCHANGED <<loc, dl, st, inst, before, ops, now, act, tv, qv, gv, mv, arg, xb, sb, stamp, sleepT, stopw, ci, left>>
Start2(c) ==
    /\ pc[c] = "go2"
    /\ Unlock(c, "go3")
    /\ UNCHANGED <<avars, tv, qv, gv, arg, lv, ov>>
Start3(c) == USend(c, "go3", "next")

\* The next operation of the script. A post waits until the task is in the hands of the user.
CallNext(c) ==
    /\ pc[c] = "next" /\ ci[c] <= Len(Script[c])
    /\ LET o == Script[c][ci[c]] IN
       \/ /\ o[1] = "post" /\ loc[o[2]] = "user"
          /\ PostCall(o[2], IF o[3] > 0 /\ o[3] < INF THEN now + o[3] ELSE o[3], inst[o[2]] + 1)
          /\ idl' = [idl EXCEPT ![o[2]] = IF o[3] > 0 /\ o[3] < INF THEN now + o[3] ELSE o[3]]
          /\ sptr' = [sptr EXCEPT ![o[2]] = TRUE]
          /\ arg' = [arg EXCEPT ![c] = [k |-> o[2], n |-> inst[o[2]] + 1, o |-> ""]]
          /\ Goto(c, "push")
          /\ ci' = [ci EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<stat, isExp, qv, gv, mv, lv, st, ops, now, nw, act, wst, stopw, left>>
       \/ /\ o[1] \in {"wake", "sig"}
          /\ arg' = [arg EXCEPT ![c] = [k |-> o[2], n |-> 0, o |-> ""]]
          /\ Goto(c, o[1])
          /\ ci' = [ci EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<avars, tv, qv, gv, mv, lv, wst, stopw, left>>
       \/ /\ o[1] \in {"empty", "stop", "start"}
          /\ Goto(c, o[1])
          /\ ci' = [ci EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<avars, tv, qv, gv, mv, lv, arg, wst, stopw, left>>

CallStep(c) ==
    \/ CallNext(c)
    \/ Push(c) \/ FSend(c) \/ PRet(c)
    \/ WakeLoad(c) \/ WakeCas(c) \/ Signal(c)
    \/ (pc[c] = "empty" /\ EmptyCall(c)) \/ Empty1(c) \/ Empty2(c) \/ Empty3(c) \/ Empty4(c) \/ EmptyEnd(c) \/ EmptyRet(c)
    \/ Observe(c)
    \/ (pc[c] = "stop" /\ StopCall(c)) \/ Stop1(c) \/ Stop2(c) \/ Stop3(c) \/ Stop4(c)
    \/ (pc[c] = "start" /\ StartCall(c)) \/ Start1(c) \/ Start2(c) \/ Start3(c)

-----------------------------------------------------------------------------
(* The workers. *)
Top(w) ==
    /\ pc[w] = "top"
    /\ Goto(w, IF w \in stopw THEN "exit" ELSE "try")
    /\ wst' = [wst EXCEPT ![w] = IF w \in stopw THEN "IDLE" ELSE "RUNNING"]
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, stopw, ci, left>>
Exit(w) == USend(w, "exit", "dead")

Try(w) ==
    /\ pc[w] = "try"
    /\ xb' = [xb EXCEPT ![w] = 0]
    /\ IF mown = None
       THEN mown' = w /\ stamp' = now /\ sb' = 0 /\ Goto(w, "s1")
       ELSE UNCHANGED <<mown, stamp, sb>> /\ Goto(w, "pop")
    /\ UNCHANGED <<avars, tv, qv, gv, mq, arg, sleepT, sbmax, ov>>

\* The waiting tasks.
Tops == {k \in heap : \A j \in heap : idl[k] <= idl[j]}
S1(w) ==
    /\ pc[w] = "s1"
    /\ IF heap = {} \/ sb >= sbmax \/ \A k \in Tops : idl[k] > stamp
       THEN \* PopAll() of the front queue
            /\ pend' = pend \o front /\ front' = <<>> /\ sb' = 0
            /\ Goto(w, "s3") /\ UNCHANGED <<heap, isExp, stat, rpend>>
       ELSE \E k \in Tops :
            /\ heap' = heap \ {k}
            /\ isExp' = [isExp EXCEPT ![k] = TRUE]
            /\ sb' = sb + 1
            /\ IF stat[k] = "WAITING"
               THEN stat' = [stat EXCEPT ![k] = "READY"] /\ rpend' = Append(rpend, k)
               ELSE UNCHANGED <<stat, rpend>>
            /\ UNCHANGED <<pc, front, pend>>
    /\ UNCHANGED <<avars, idl, sptr, rdy, gv, mv, arg, xb, stamp, sleepT, sbmax, ov>>
S3(w) ==
    /\ pc[w] = "s3"
    /\ IF pend = <<>> \/ sb >= sbmax
       THEN Goto(w, "s4") /\ UNCHANGED <<heap, isExp, stat, rpend, pend, sb>>
       ELSE LET k == Head(pend) IN
            /\ pend' = Tail(pend) /\ sb' = sb + 1
            /\ UNCHANGED pc
            /\ isExp' = [isExp EXCEPT ![k] = stamp >= idl[k]]
            /\ IF stamp < idl[k] /\ stat[k] = "PENDING"
               THEN /\ stat' = [stat EXCEPT ![k] = "WAITING"]
                    /\ heap' = IF idl[k] # INF THEN heap \cup {k} ELSE heap
                    /\ UNCHANGED rpend
               ELSE /\ stat' = [stat EXCEPT ![k] = IF @ = "PENDING" THEN "READY" ELSE @]
                    /\ heap' = heap \ {k}
                    /\ rpend' = Append(rpend, k)
    /\ UNCHANGED <<avars, idl, sptr, front, rdy, gv, mv, arg, xb, stamp, sleepT, sbmax, ov>>
\* To the ready queue: full blocks become visible on their own.
S4(w) ==
    /\ pc[w] = "s4"
    /\ IF Len(rpend) > B
       THEN rdy' = rdy \o SubSeq(rpend, 1, B) /\ rpend' = SubSeq(rpend, B + 1, Len(rpend)) /\ UNCHANGED pc
       ELSE rdy' = rdy \o rpend /\ rpend' = <<>> /\ Goto(w, "s5")
    /\ UNCHANGED <<avars, tv, front, pend, heap, gv, mv, arg, lv, ov>>
S5(w) ==
    /\ pc[w] = "s5"
    /\ Goto(w, IF rdy = <<>> /\ pend = <<>> THEN "s6" ELSE "s8")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, ov>>
\* The clock is read and the sleep starts at once here: being preempted in between only delays.
S6(w) ==
    /\ pc[w] = "s6"
    /\ IF heap = {} THEN sleepT' = INF /\ Goto(w, "s7")
       ELSE LET d == idl[CHOOSE k \in Tops : TRUE] IN
            IF d > now THEN sleepT' = d /\ Goto(w, "s7") ELSE UNCHANGED sleepT /\ Goto(w, "s8")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, xb, sb, stamp, sbmax, ov>>
S7(w) ==
    /\ pc[w] = "s7"
    /\ \/ fsig /\ fsig' = FALSE
       \/ sleepT # INF /\ now >= sleepT /\ UNCHANGED fsig
    /\ Goto(w, "s8")
    /\ UNCHANGED <<avars, tv, qv, rsig, mv, arg, lv, ov>>
S8(w) ==
    /\ pc[w] = "s8"
    /\ Unlock(w, "s9")
    /\ UNCHANGED <<avars, tv, qv, gv, arg, lv, ov>>
S9(w) == USend(w, "s9", "pop")

Pop(w) ==
    /\ pc[w] = "pop"
    /\ IF rdy = <<>>
       THEN UNCHANGED <<rdy, arg>> /\ Goto(w, "idle")
       ELSE rdy' = Tail(rdy) /\ arg' = [arg EXCEPT ![w] = [k |-> Head(rdy), n |-> 0, o |-> ""]] /\ Goto(w, "take")
    /\ UNCHANGED <<avars, tv, front, pend, heap, rpend, gv, mv, lv, ov>>
TakeIt(w) ==
    /\ pc[w] = "take"
    /\ LET k == arg[w].k IN
       /\ Take(k)
       /\ sptr' = [sptr EXCEPT ![k] = FALSE]
       /\ stat' = [stat EXCEPT ![k] = IF @ = "READY" THEN "PENDING" ELSE @]
    /\ Goto(w, "call")
    /\ UNCHANGED <<dl, inst, before, ops, now, nw, act, idl, isExp, qv, gv, mv, arg, lv, ov>>
Call(w) ==
    /\ pc[w] = "call"
    /\ Begin(arg[w].k)
    /\ idl' = [idl EXCEPT ![arg[w].k] = 0]
    /\ Goto(w, "body")
    /\ UNCHANGED <<dl, st, inst, ops, now, nw, stat, sptr, isExp, qv, gv, mv, arg, lv, ov>>
\* The callback: may receive the signal, then posts the task again or leaves it to the user.
Body(w) ==
    /\ pc[w] \in {"body", "body2"}
    /\ LET k == arg[w].k IN
       \/ /\ pc[w] = "body"
          /\ stat' = [stat EXCEPT ![k] = IF @ = "SIGNALED" THEN "PENDING" ELSE @]
          /\ st' = [st EXCEPT ![k] = IF @ = "sig" THEN "pend" ELSE @]
          /\ Goto(w, "body2")
          /\ UNCHANGED <<unSt, idl, sptr, isExp, qv, gv, mv, arg, lv, ov>>
       \/ \E d \in Deadlines : PostBegin(w, k, d)
       \/ /\ Leave(k, "user")
          /\ arg' = [arg EXCEPT ![w] = Nil]
          /\ Goto(w, "ce")
          /\ UNCHANGED <<dl, st, inst, before, ops, now, nw, act, tv, qv, gv, mv, lv, ov>>
\* The callback returned.
Ce(w) ==
    /\ pc[w] = "ce"
    /\ act' = act - 1
    /\ xb' = [xb EXCEPT ![w] = @ + 1]
    /\ Goto(w, IF xb[w] + 1 < B THEN "pop" ELSE "try")
    /\ UNCHANGED <<loc, dl, st, inst, before, ops, now, nw, tv, qv, gv, mv, arg, sb, stamp, sleepT, sbmax, ov>>
Idle(w) ==
    /\ pc[w] = "idle"
    /\ wst' = [wst EXCEPT ![w] = "IDLE"]
    /\ Goto(w, "wait")
    /\ UNCHANGED <<avars, tv, qv, gv, mv, arg, lv, stopw, ci, left>>
Wait(w) ==
    /\ pc[w] = "wait" /\ rsig
    /\ rsig' = FALSE
    /\ Goto(w, "top")
    /\ UNCHANGED <<avars, tv, qv, fsig, mv, arg, lv, ov>>

WorkStep(w) ==
    \/ Top(w) \/ Exit(w) \/ Try(w) \/ S1(w) \/ S3(w) \/ S4(w) \/ S5(w) \/ S6(w) \/ S7(w) \/ S8(w) \/ S9(w)
    \/ Pop(w) \/ TakeIt(w) \/ Call(w) \/ Body(w) \/ Push(w) \/ FSend(w) \/ PRet(w) \/ Ce(w) \/ Idle(w) \/ Wait(w)

Tick ==
    /\ now < MaxNow /\ now' = now + 1
    /\ UNCHANGED <<loc, dl, st, inst, before, ops, nw, act, ivars>>

Next == (\E c \in Caller : CallStep(c)) \/ (\E w \in Worker : WorkStep(w)) \/ Tick
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Tick) /\ (\A c \in Caller : WF_vars(CallStep(c))) /\ (\A w \in Worker : WF_vars(WorkStep(w)))

-----------------------------------------------------------------------------
(* What must hold. *)
Blocked(w) == \/ pc[w] = "dead"
              \/ pc[w] = "wait" /\ ~rsig
              \/ pc[w] = "s7" /\ ~fsig /\ ~(sleepT # INF /\ now >= sleepT)
Resting(c) == pc[c] \in {"next", "lock"}
\* Nothing which could run stays while everybody sleeps, nobody waits for the mutex of a sleeper.
NoSleep ==
    ((\A w \in Worker : Blocked(w)) /\ (\A c \in Caller : Resting(c)) /\ nw > 0) =>
        /\ \A k \in Tasks : ~Runnable(k) /\ loc[k] # "taken"
        /\ mq = <<>>
\* The status as the users see it.
Agree == \A k \in Tasks : /\ (st[k] = "sig") = (stat[k] = "SIGNALED")
                          /\ st[k] = "woken" => stat[k] = "READY"
                          /\ stat[k] = "WAITING" => loc[k] \in {"in", "pin"} /\ sptr[k]
\* A task is in one queue, except for the waiting one together with the front or pending ones.
Count(q, k) == Cardinality({i \in DOMAIN q : q[i] = k})
Places ==
    /\ \A k \in Tasks : Count(front, k) + Count(pend, k) + Count(rpend, k) + Count(rdy, k)
                          + Cardinality({w \in Worker : pc[w] \in {"take", "call", "body", "body2"} /\ arg[w].k = k}) <= 1
    /\ \A k \in heap : Count(rpend, k) + Count(rdy, k) = 0 /\ sptr[k]
    /\ \A k \in Tasks : loc[k] \in {"user", "run"} => ~sptr[k]
\* Never early; the expiration is told truthfully.
Timely == \A w \in Worker : pc[w] = "take" =>
    /\ Due(arg[w].k) \/ st[arg[w].k] # "pend"
    /\ isExp[arg[w].k] => Due(arg[w].k)
InOrder == \A w \in Worker : (pc[w] = "call" /\ dl[arg[w].k] = 0) => Cardinality(before[arg[w].k]) <= nw - 1
EmptyTruth == \A c \in Caller : pc[c] = "eyesR" => \A o \in We(c) : o.done \/ EmptyNow
Stopped == nw = 0 => act = 0

\* The steps of SchedAbs.
uA(v) == UNCHANGED v
AbsNext ==
    \/ \E k \in Tasks :
       \/ /\ loc[k] \in {"user", "run"} /\ loc'[k] = "pin"
          /\ PostCall(k, dl'[k], inst'[k]) /\ inst'[k] = inst[k] + 1 /\ uA(<<st, ops, now, nw, act>>)
       \/ PostRet(k, inst[k]) /\ uA(<<dl, st, inst, before, ops, now, nw, act>>)
       \/ Woken(k) /\ uA(unSt)
       \/ Signaled(k) /\ uA(unSt)
       \/ st[k] = "sig" /\ st' = [st EXCEPT ![k] = "pend"] /\ uA(unSt)
       \/ Take(k) /\ (Due(k) \/ st[k] # "pend") /\ uA(<<dl, inst, before, ops, now, nw, act>>)
       \/ Begin(k) /\ uA(<<dl, st, inst, ops, now, nw>>)
       \/ Leave(k, "user") /\ uA(<<dl, st, inst, before, ops, now, nw, act>>)
    \/ act > 0 /\ act' = act - 1 /\ uA(<<loc, dl, st, inst, before, ops, now, nw>>)
    \/ \E o \in ops : EmptyLin(o) /\ uA(<<loc, dl, st, inst, before, now, nw, act>>)
    \/ /\ \/ \E c \in Caller : ops' = ops \cup {[h |-> c, op |-> "we", k |-> 0, done |-> FALSE, v |-> FALSE, lim |-> 0]}
          \/ \E o \in ops : ops' = ops \ {o}
       /\ uA(<<loc, dl, st, inst, before, now, nw, act>>)
    \/ nw' \in {0, Cardinality(Worker)} /\ (nw' = 0 => act = 0) /\ uA(<<loc, dl, st, inst, before, ops, now, act>>)
    \/ now' = now + 1 /\ uA(<<loc, dl, st, inst, before, ops, nw, act>>)
Refines == [][AbsNext]_avars

\* With fairness: what is due or woken is taken, calls end.
Served == \A k \in Tasks : (loc[k] = "in" /\ (dl[k] <= MaxNow \/ st[k] # "pend")) ~> (loc[k] \notin {"in", "pin"})
Ends == \A c \in Caller : (pc[c] \in {"lock", "st3"}) ~> (pc[c] \notin {"lock", "st3"})
=============================================================================
