------------------------------ MODULE MtxTrace ------------------------------
EXTENDS Mtx, Trc
VARIABLES now, th
\* th: the thread object: st in "new", "started", "body", "ended", "gone"; stop = a stop was
\* begun; out = the destructor's body was entered
vars == <<mvars, now, th, trcVars>>
Init == TrcInit /\ MtxInit /\ now = 0 /\ th = [st |-> "new", stop |-> FALSE, stopped |-> FALSE]
Internal == /\ More /\ Ev.e \in {"r", "jump", "idle"} /\ Silent /\ UNCHANGED <<now, th>>
            /\ \E o \in ops : Lin(o) \/ Timeout(o, now) \/ (TCfg.sp = 1 /\ Spurious(o))
Clock(t) == now' = IF t > now THEN t ELSE now
ThOps == {"start", "stop", "bstop", "isrun", "isstop", "sdel", "del"}
\* A call of the thread object returns.
ThRet(o, v) ==
    CASE o.op = "start" -> TRUE
      [] o.op = "stop" -> th.stop
      [] o.op \in {"bstop", "sdel", "del"} -> th.st \in {"new", "ended", "gone"}
      [] o.op = "isrun" -> /\ th.st \in {"started", "body"} /\ o.lim = 1 => v = 1
                           /\ th.st = "new" => v = 0
      [] o.op = "isstop" -> /\ v = 1 => th.stop
                            /\ o.v = 1 => v = 1
Events ==
    /\ Consume
    /\ \/ /\ Ev.e = "c" /\ Ev.op \notin ThOps /\ Clock(Ev.t)
          /\ Call(Ev.h, Ev.op, IF Ev.lim < 0 THEN INF ELSE Ev.t + Ev.lim) /\ UNCHANGED <<owner, depth, th>>
       \/ /\ Ev.e = "r" /\ Clock(Ev.t)
          /\ \E o \in ops : /\ o.h = Ev.h /\ o.op \notin ThOps /\ Ret(o)
                            /\ (o.op \in {"try", "own", "twait"} => o.v = Ev.v)
          /\ UNCHANGED <<owner, depth, th>>
       \/ /\ Ev.e = "c" /\ Ev.op \in ThOps /\ Clock(Ev.t)
          /\ \A o \in ops : o.h # Ev.h
          \* v: a stop had been complete before the call; lim: started and not ended before.
          /\ ops' = ops \cup {[h |-> Ev.h, op |-> Ev.op, ph |-> 9, v |-> B(th.stopped),
                               lim |-> B(th.st \in {"started", "body"})]}
          /\ th' = [th EXCEPT !.st = IF Ev.op = "start" THEN "started" ELSE @,
                              !.stop = @ \/ Ev.op \in {"stop", "bstop", "sdel", "del"}]
          /\ UNCHANGED <<owner, depth>>
       \/ /\ Ev.e = "r" /\ Clock(Ev.t)
          /\ \E o \in ops : /\ o.h = Ev.h /\ o.op \in ThOps /\ Ret(o) /\ ThRet(o, Ev.v)
                            /\ th' = [th EXCEPT !.stopped = @ \/ o.op \in {"stop", "bstop"}]
          /\ UNCHANGED <<owner, depth>>
       \/ Ev.e = "xb" /\ th.st = "started" /\ th' = [th EXCEPT !.st = "body"] /\ UNCHANGED <<mvars, now>>
       \/ Ev.e = "xe" /\ th.st = "body" /\ th' = [th EXCEPT !.st = "ended"] /\ UNCHANGED <<mvars, now>>
       \/ Ev.e = "dtor" /\ th.st \in {"new", "ended"} /\ th' = [th EXCEPT !.st = "gone"] /\ UNCHANGED <<mvars, now>>
       \/ Ev.e = "tick" /\ Clock(Ev.to) /\ UNCHANGED <<mvars, th>>
       \/ Ev.e = "jump" /\ Stuck(now) /\ (\A o \in Waiting : o.lim >= Ev.to) /\ Clock(Ev.to) /\ UNCHANGED <<mvars, th>>
       \/ Ev.e = "idle" /\ Stuck(now) /\ UNCHANGED <<mvars, now, th>>
       \/ Ev.e = "end" /\ ops = {} /\ owner = -1 /\ th.st \in {"new", "gone"} /\ UNCHANGED <<mvars, now, th>>
Next == Internal \/ Events
Spec == Init /\ [][Next]_vars
=============================================================================
