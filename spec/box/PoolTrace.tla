----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, Trc
VARIABLES ops, most
\* most: the most objects in use at once, counting the calls under way
vars == <<pvars, ops, most, trcVars>>
Init == TrcInit /\ PoolInit /\ ops = {} /\ most = 0
Cnt == Cardinality(live) + Cardinality({o \in ops : o.op = "alloc"})
Next ==
    /\ Consume
    /\ \/ /\ Ev.e = "c" /\ Ev.op = "alloc"
          /\ ops' = ops \cup {[h |-> Ev.h, op |-> "alloc", x |-> Ev.x]}
          /\ most' = (IF Cnt + 1 > most THEN Cnt + 1 ELSE most) /\ UNCHANGED pvars
       \* The contents was not touched; from now on somebody else may get it.
       \/ /\ Ev.e = "c" /\ Ev.op = "free" /\ Ev.bad = 0
          /\ Free(Ev.x) /\ ops' = ops \cup {[h |-> Ev.h, op |-> "free", x |-> 0]}
          /\ UNCHANGED most
       \/ /\ Ev.e = "r" /\ \E o \in ops : /\ o.h = Ev.h /\ ops' = ops \ {o}
                                          /\ IF o.op = "alloc"
                                             THEN /\ Alloc(Ev.v, o.x)
                                                  \* Frees under way may not have given the memory back yet.
                                                  /\ Cardinality(held') <= most + (TCfg.nt + 1) * (TCfg.b + 1) + TCfg.nt
                                             ELSE UNCHANGED pvars
          /\ UNCHANGED most
       \/ Ev.e = "round" /\ ops = {} /\ UNCHANGED <<pvars, ops, most>>
       \/ Ev.e \in {"jump", "tick"} /\ UNCHANGED <<pvars, ops, most>>
       \/ Ev.e = "end" /\ ops = {} /\ live = {} /\ UNCHANGED <<pvars, ops, most>>
Spec == Init /\ [][Next]_vars
=============================================================================
