------------------------------ MODULE StrmTrace ------------------------------
EXTENDS Strm, Trc
vars == <<strmvars, trcVars>>
Init == TrcInit /\ StrmInit
Obs == /\ Ev.rs = wr' - rd' /\ Ev.rr = Ev.rs
       /\ Ev.ws = room' /\ Ev.wc = Ev.ws /\ Ev.bad = 0
       /\ Ev.c = Interval(rd', wr')
       /\ Ev.em = 1 => wr' = rd' /\ room' = 0
Next ==
    /\ Consume
    /\ IF Ev.e = "end" THEN UNCHANGED strmvars
       ELSE /\ Ev.e \notin {"fatal", "uaf"}
            /\ room' = Ev.ws
            /\ CASE Ev.e = "new" -> Keep /\ Ev.em = 1
                 [] Ev.e = "wr" -> Write(Ev.n)
                 [] Ev.e = "res" -> Reserve(Ev.n)
                 [] Ev.e = "vec" -> Offer(Ev.n, Ev.x)
                 [] Ev.e = "prop" -> Propagate(Ev.n)
                 [] Ev.e = "skip" -> Consume_(Ev.n)
                 [] Ev.e = "read" -> Consume_(Ev.n) /\ Ev.runs = Interval(rd, rd + Ev.n) /\ Ev.x = 1
                 [] Ev.e = "peek" -> Keep /\ Ev.n <= Have /\ Ev.runs = Interval(rd, rd + Ev.n) /\ Ev.x = 1
                 [] Ev.e = "pop" -> Pop /\ Ev.runs = Interval(rd, wr)
                 [] Ev.e = "clr" -> Clear /\ room' = 0 /\ Ev.em = 1
                 [] Ev.e = "chk" -> Keep /\ Ev.runs = Interval(pops[Ev.n][1], pops[Ev.n][2])
                 [] OTHER -> FALSE
            /\ Obs
Spec == Init /\ [][Next]_vars
=============================================================================
