------------------------------ MODULE PtrTrace ------------------------------
EXTENDS Ptr, Trc
vars == <<ptrvars, trcVars>>
Init == TrcInit /\ PtrInit
Next ==
    /\ Consume
    /\ \/ Ev.e = "c" /\ Call(Ev.h, Ev.op, Ev.d, Ev.s)
       \/ Ev.e = "new" /\ New(Ev.o)
       \/ Ev.e = "d" /\ Die(Ev.o, Ev.h)
       \/ Ev.e = "r" /\ \E c \in ops : c.h = Ev.h /\ Ret(c) /\ Ev.v = Result(c)
       \/ Ev.e \in {"jump", "tick"} /\ UNCHANGED ptrvars
       \/ Ev.e = "end" /\ ops = {} /\ slot = <<>> /\ UNCHANGED ptrvars
Spec == Init /\ [][Next]_vars
=============================================================================
