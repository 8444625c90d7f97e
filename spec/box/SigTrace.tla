------------------------------ MODULE SigTrace ------------------------------
EXTENDS Sig, Trc
vars == <<svars, trcVars>>
Init == TrcInit /\ SigInit
Internal == /\ More /\ Ev.e \in {"r", "jump"} /\ (\E o \in ops : Lin(o))
            /\ Silent /\ UNCHANGED <<now, alive>>
Clock(t) == now' = IF t > now THEN t ELSE now
Events ==
    /\ Consume
    /\ \/ /\ Ev.e = "c" /\ Clock(Ev.t)
          /\ Call(Ev.h, Ev.op, IF Ev.lim < 0 THEN INF ELSE Ev.t + Ev.lim) /\ UNCHANGED <<sg, alive>>
       \/ /\ Ev.e = "r" /\ Clock(Ev.t)
          /\ \E o \in ops : /\ o.h = Ev.h /\ Ret(o) /\ (o.op = "send" \/ o.v = Ev.v)
                            \* Without vain wakeups false means that the time has passed.
                            /\ (o.op = "timed" /\ o.v = 0 /\ TCfg.sp = 0 /\ ~o.st => Ev.t >= o.lim)
          /\ UNCHANGED <<sg, alive>>
       \* Everything is blocked: nobody waits for a set signal, or longer than asked.
       \/ /\ Ev.e = "jump" /\ Quiet /\ sg # "probe"
          /\ \A o \in ops : o.op = "timed" /\ o.ph # 9 => o.lim >= Ev.to
          /\ Clock(Ev.to) /\ UNCHANGED <<sg, ops, alive>>
       \/ Ev.e = "tick" /\ Clock(Ev.to) /\ UNCHANGED <<sg, ops, alive>>
       \/ Ev.e = "idle" /\ Quiet /\ sg # "probe" /\ UNCHANGED svars
       \* The receiver destroys the object; other calls may be still returning.
       \/ Ev.e = "free" /\ alive' = FALSE /\ UNCHANGED <<sg, ops, now>>
       \/ Ev.e = "end" /\ ops = {} /\ UNCHANGED svars
Next == Internal \/ Events
Spec == Init /\ [][Next]_vars
=============================================================================
