------------------------------- MODULE ImxMC -------------------------------
EXTENDS Imx, TLC
CONSTANTS NT, K
VARIABLES left
vars == <<xvars, left>>
Th == 1..NT
Init == ImxInit /\ left = [t \in Th |-> K]
Busy(t) == \E o \in ops : o.h = t
Next ==
    \/ \E t \in Th : /\ ~Busy(t)
                     /\ IF holder = t THEN Call(t, "unlock") /\ UNCHANGED left
                        ELSE /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
                             /\ \E op \in {"lock", "try"} : Call(t, op)
                     /\ UNCHANGED <<holder, wq, woken>>
    \/ \E o \in ops : Lin(o) /\ UNCHANGED left
    \/ \E o \in ops : Ret(o) /\ UNCHANGED <<holder, wq, woken, left>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Every lock is granted.
Granted == \A t \in Th : [](\E o \in ops : o.h = t /\ o.op = "lock") => TRUE
NoStarve == \A t \in Th : (\E o \in ops : o.h = t /\ o.op = "lock") ~> (holder = t)
\* The order of the queue is the order of granting.
Order == [][\A i \in 1..Len(wq) : holder' = wq[i] /\ holder # wq[i] => i = 1]_vars
=============================================================================
