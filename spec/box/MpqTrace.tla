------------------------------ MODULE MpqTrace ------------------------------
EXTENDS Mpq, Trc
vars == <<qvars, trcVars>>
Init == TrcInit /\ MpqInit
Internal == IsEv("r") /\ (\E o \in ops : Lin(o)) /\ Silent
Events ==
    /\ Consume
    /\ \/ Ev.e = "c" /\ Call(Ev.h, Ev.op, Ev.x) /\ UNCHANGED stk
       \/ /\ Ev.e = "r"
          /\ \E o \in ops : o.h = Ev.h /\ Ret(o) /\ o.v = Ev.v /\ o.l = Ev.l
                            \* the tail reported by a pop
                            /\ (o.op = "pop" /\ Ev.t # -1 => Ev.t = IF o.l = <<>> THEN 0 ELSE o.l[Len(o.l)])
          /\ UNCHANGED stk
       \/ Ev.e \in {"jump", "tick"} /\ UNCHANGED qvars
       \/ Ev.e = "end" /\ stk = <<>> /\ ops = {} /\ UNCHANGED qvars
Next == Internal \/ Events
Spec == Init /\ [][Next]_vars
=============================================================================
