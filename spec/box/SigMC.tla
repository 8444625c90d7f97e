------------------------------- MODULE SigMC -------------------------------
EXTENDS Sig, TLC
CONSTANTS NS, NR, K
VARIABLES left, got
vars == <<svars, left, got>>
Th == 1..(NS + NR)
Init == SigInit /\ left = [t \in Th |-> K] /\ got = 0
Next ==
    \/ \E t \in Th : /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
                     /\ IF t <= NS THEN Call(t, "send", 0)
                        ELSE \E op \in {"recv", "block", "timed"} : Call(t, op, 0)
                     /\ UNCHANGED <<sg, now, alive, got>>
    \/ \E o \in ops : Lin(o) /\ got' = (IF o.op # "send" /\ sg = "set" THEN got + 1 ELSE got) /\ UNCHANGED <<now, alive, left>>
    \/ \E o \in ops : Ret(o) /\ UNCHANGED <<sg, now, alive, left, got>>
Fair == \A t \in Th : WF_vars(\E o \in ops : o.h = t /\ (Lin(o) \/ Ret(o)) /\ UNCHANGED <<now, alive, left, got>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E o \in ops : Lin(o) /\ got' = (IF o.op # "send" /\ sg = "set" THEN got + 1 ELSE got) /\ UNCHANGED <<now, alive, left>>)
             /\ WF_vars(\E o \in ops : Ret(o) /\ UNCHANGED <<sg, now, alive, left, got>>)
\* A receive needs its own send.
NoStack == got <= NS * K
\* After a complete send nothing waits forever.
Delivered == [](sg = "set" /\ (\E o \in ops : o.op = "block" /\ o.ph = 0) => <>(sg # "set"))
ProbeHasOwner == sg = "probe" <=> \E o \in ops : o.op = "send" /\ o.ph = 1
=============================================================================
