------------------------------ MODULE McqTrace ------------------------------
(* Accepts the traces of drv/conc.cpp mcq which are behaviours of Mcq. *)
EXTENDS Mcq, Trc
vars == <<mvars, trcVars>>
S == TCfg.s
Init == TrcInit /\ McqInit
\* Internal steps are taken only when the next event is a return.
Internal == /\ IsEv("r") /\ \E o \in ops : Lin(o, S)
            /\ Silent
\* Every item was popped in the end.
Final == vis = <<>> /\ pend = <<>> /\ cnt = 0 /\ ops = {}
Events ==
    /\ Consume
    /\ \/ Ev.e = "c" /\ Call(Ev.h, Ev.op, Ev.x) /\ UNCHANGED <<vis, pend, w, cnt, maxo>>
       \/ /\ Ev.e = "r"
          /\ \E o \in ops : o.h = Ev.h /\ Ret(o) /\ o.v = Ev.v
          /\ UNCHANGED <<vis, pend, w, cnt, maxo>>
       \/ Ev.e = "blocks" /\ Ev.v <= BlockBound(S, Ev.c, Ev.res) /\ UNCHANGED mvars
       \/ Ev.e = "cons" /\ Ev.v = Ev.x /\ UNCHANGED mvars
       \/ Ev.e \in {"jump", "tick"} /\ UNCHANGED mvars
       \/ Ev.e = "end" /\ Final /\ UNCHANGED mvars
Next == Internal \/ Events
Spec == Init /\ [][Next]_vars
=============================================================================
