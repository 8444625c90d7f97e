------------------------------- MODULE MtxMC -------------------------------
EXTENDS Mtx, TLC
CONSTANTS NT, K
VARIABLES left
vars == <<mvars, left>>
Th == 1..NT
Init == MtxInit /\ left = [t \in Th |-> K]
Busy(t) == \E o \in ops : o.h = t
MayCall(t) == IF owner = t THEN (IF left[t] > 0 /\ depth < 2 THEN {"unlock", "lock", "try", "own", "wait", "twait", "signal", "bcast"} \ (IF depth # 1 THEN Waits ELSE {}) ELSE {"unlock"})
              ELSE IF left[t] > 0 THEN {"lock", "try", "own", "signal", "bcast"} ELSE {}
Next ==
    \/ \E t \in Th : /\ ~Busy(t) /\ \E op \in MayCall(t) : /\ Call(t, op, 0)
                                                           /\ left' = [left EXCEPT ![t] = IF @ > 0 /\ op # "unlock" THEN @ - 1 ELSE @]
                     /\ UNCHANGED <<owner, depth>>
    \/ \E o \in ops : (Lin(o) \/ Timeout(o, 1)) /\ UNCHANGED left
    \/ \E o \in ops : Ret(o) /\ UNCHANGED <<owner, depth, left>>
Spec == Init /\ [][Next]_vars
Exclusion == \A o \in ops : o.ph = 9 /\ (o.op \in Waits \/ (o.op \in {"lock", "try"} /\ o.v = 1)) => owner = o.h
\* A signal sent while somebody waits wakes one of the waiting up.
Woken == [][\A o \in ops : o.op = "signal" /\ o.ph = 0 /\ Waiting # {} /\ (\E x \in ops' : x.h = o.h /\ x.ph = 9)
               => Cardinality({w \in Waiting : \E x \in ops' : x.h = w.h /\ x.ph = 2}) = 1]_vars
=============================================================================
