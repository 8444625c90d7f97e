------------------------------ MODULE ImxTrace ------------------------------
EXTENDS Imx, Trc
vars == <<xvars, trcVars>>
Init == TrcInit /\ ImxInit
\* A thread which is in the critical section, as the driver sees it.
Internal == /\ More /\ Ev.e \in {"r", "wk", "jump", "idle"} /\ (\E o \in ops : Lin(o)) /\ Silent
Events ==
    /\ Consume
    /\ \/ Ev.e = "c" /\ Call(Ev.h, Ev.op) /\ UNCHANGED <<holder, wq, woken>>
       \/ /\ Ev.e = "r"
          /\ \E o \in ops : o.h = Ev.h /\ Ret(o) /\ (o.op = "try" => o.v = Ev.v)
          /\ UNCHANGED <<holder, wq, woken>>
       \* The wakeup is called by a thread which has to wait, for a taken mutex.
       \/ /\ Ev.e = "wk"
          /\ \E o \in ops : o.h = Ev.h /\ o.op = "lock" /\ o.ph \in {0, 1} /\ holder # -1
          /\ woken' = TRUE /\ UNCHANGED <<holder, wq, ops>>
       \* When nothing can move, a holder which sleeps has no waiters unless it was woken up.
       \/ /\ Ev.e \in {"jump", "idle"}
          /\ (wq # <<>> => woken)
          /\ UNCHANGED xvars
       \/ Ev.e = "tick" /\ UNCHANGED xvars
       \/ Ev.e = "end" /\ ops = {} /\ holder = -1 /\ UNCHANGED xvars
Next == Internal \/ Events
Spec == Init /\ [][Next]_vars
=============================================================================
