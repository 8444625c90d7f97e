----------------------------- MODULE SchedTrace -----------------------------
(* Accepts the traces of drv/sch.cpp which are behaviours of SchedAbs.
   Properties: C01 exactly once, C02 deadlines, C03 wakeups, C04 signals, C05 order,
   C06 draining and stopping. *)
EXTENDS SchedAbs, Trc

vars == <<avars, trcVars>>
UA(v) == UNCHANGED v

Init == TrcInit /\ AbsInit(1..Traces[tid].cfg.n)

\* The next event needs the effect of a pending call on task k, or of taking it.
NextTask == IF More /\ Ev.e \in {"wr", "sr", "rr", "ir", "xb"} THEN Ev.k ELSE 0
\* Greedy: noticing emptiness as early as possible never hurts.
MustEmpty == \E o \in ops : o.op = "we" /\ ~o.done /\ EmptyNow

Internal ==
    \/ \E o \in ops : EmptyLin(o) /\ UA(<<loc, dl, st, inst, before, now, nw, act>>)
    \/ /\ ~MustEmpty /\ NextTask # 0
       /\ \/ \E o \in ops : o.k = NextTask /\ (WakeLin(o) \/ SigLin(o) \/ RecvLin(o) \/ IsSigLin(o))
                            /\ UA(<<loc, dl, inst, before, now, nw, act>>)
          \/ /\ Req({"C02"}, Due(NextTask) \/ st[NextTask] # "pend")
             /\ Take(NextTask)
             /\ UA(<<dl, inst, before, ops, now, nw, act>>)

OpRet(op) == \E o \in ops :
    /\ o.h = Ev.h /\ o.op = op /\ o.done
    /\ ops' = ops \ {o}
    /\ IF op \in {"recv", "issig"} THEN Req({"C04"}, o.v = (Ev.v = 1)) ELSE TRUE

\* Nothing which could run stays: time may pass only then.
Quiet(to) == nw > 0 =>
    \A k \in Task :
       /\ Req({"C01", "C02", "C03", "C04", "C06"}, loc[k] # "taken")
       /\ Req({"C01", "C06"}, ~(loc[k] \in {"pin", "in"} /\ dl[k] = 0))
       \* If the clock moved on its own, a wait computed before that ends later.
       /\ Req({"C02"}, loc[k] \in {"pin", "in"} => (dl[k] >= to \/ (TCfg.tk = 1 /\ to # INF)))
       /\ Req({"C03"}, ~(loc[k] \in {"pin", "in"} /\ st[k] = "woken"))
       /\ Req({"C04"}, ~(loc[k] \in {"pin", "in"} /\ st[k] = "sig"))

Step ==
    /\ ~MustEmpty
    /\ Consume
    /\ \/ /\ Ev.e = "ds" /\ Req({"C02"}, Ev.lo <= Ev.v /\ Ev.v <= Ev.hi) /\ UA(avars)
       \/ /\ Ev.e = "pc" /\ PostCall(Ev.k, Ev.d, Ev.n) /\ SetClock(Ev.t)
          /\ UA(<<st, ops, nw, act>>)
       \/ /\ Ev.e = "pr" /\ PostRet(Ev.k, Ev.n) /\ UA(<<dl, st, inst, before, ops, now, nw, act>>)
       \/ /\ Ev.e \in {"wc", "sc", "rc", "ic"}
          /\ OpCall(Ev.h, CASE Ev.e = "wc" -> "wake" [] Ev.e = "sc" -> "sig" [] Ev.e = "rc" -> "recv" [] OTHER -> "issig", Ev.k)
          /\ UA(<<loc, dl, st, inst, before, now, nw, act>>)
       \/ /\ Ev.e \in {"wr", "sr", "rr", "ir"}
          /\ OpRet(CASE Ev.e = "wr" -> "wake" [] Ev.e = "sr" -> "sig" [] Ev.e = "rr" -> "recv" [] OTHER -> "issig")
          /\ UA(<<loc, dl, st, inst, before, now, nw, act>>)
       \/ /\ Ev.e = "xb" /\ Begin(Ev.k) /\ SetClock(Ev.t)
          /\ Req({"C02"}, Ev.x = 1 => dl[Ev.k] <= Ev.t)
          /\ Req({"C05"}, dl[Ev.k] = 0 => Cardinality(before[Ev.k]) <= nw - 1)
          /\ Req({"C01", "C06"}, nw > 0)
          /\ UA(<<dl, st, inst, ops, nw>>)
       \/ /\ Ev.e = "xe" /\ Leave(Ev.k, "user") /\ UA(<<dl, st, inst, before, ops, now, nw, act>>)
       \/ /\ Ev.e = "del" /\ Leave(Ev.k, "gone") /\ UA(<<dl, st, inst, before, ops, now, nw, act>>)
       \/ /\ Ev.e = "ce" /\ act' = act - 1 /\ UA(<<loc, dl, st, inst, before, ops, now, nw>>)
       \/ /\ Ev.e = "gs" /\ nw' = Ev.n /\ UA(<<loc, dl, st, inst, before, ops, now, act>>)
       \/ /\ Ev.e = "tc" /\ UA(avars)
       \/ /\ Ev.e = "tr" /\ nw' = 0 /\ Req({"C06"}, act = 0)
          /\ UA(<<loc, dl, st, inst, before, ops, now, act>>)
       \/ /\ Ev.e = "ec"
          /\ ops' = ops \cup {[h |-> Ev.h, op |-> "we", k |-> 0, done |-> FALSE, v |-> FALSE,
                               lim |-> IF Ev.lim = -2 THEN -1 ELSE IF Ev.lim < 0 THEN INF ELSE Ev.t + Ev.lim]}
          /\ SetClock(Ev.t) /\ UA(<<loc, dl, st, inst, before, nw, act>>)
       \/ /\ Ev.e = "er"
          /\ \E o \in ops : /\ o.h = Ev.h /\ o.op = "we"
                            /\ Req({"C06"}, IF Ev.v = 1 THEN o.done ELSE Ev.t > o.lim)
                            /\ ops' = ops \ {o}
          /\ SetClock(Ev.t) /\ UA(<<loc, dl, st, inst, before, nw, act>>)
       \/ /\ Ev.e = "jump" /\ Quiet(Ev.to) /\ SetClock(Ev.to)
          /\ UA(<<loc, dl, st, inst, before, ops, nw, act>>)
       \/ /\ Ev.e = "tick" /\ SetClock(Ev.to) /\ UA(<<loc, dl, st, inst, before, ops, nw, act>>)
       \/ /\ Ev.e = "idle" /\ Quiet(INF) /\ UA(avars)
       \* A task which never came back to the user was lost.
       \/ /\ Ev.e = "leak" /\ Aspect \notin {"C01", "C06"} /\ UA(avars)
       \* "uaf", "fatal": never.

Next == (Internal /\ Silent) \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
