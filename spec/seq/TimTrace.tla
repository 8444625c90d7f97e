------------------------------ MODULE TimTrace ------------------------------
EXTENDS Trc
T == INSTANCE Tim WITH B <- 65536
vars == trcVars
Init == TrcInit
Bit(c) == IF c THEN 1 ELSE 0
Next ==
    /\ Consume
    /\ CASE Ev.e = "d2p" -> Ev.r = T!ToPoint(Ev.v, Ev.now)
         [] Ev.e = "p2d" -> Ev.r = T!ToDuration(Ev.v, Ev.now)
         [] Ev.e \in {"id", "int"} -> Ev.r = Ev.v
         [] Ev.e = "inf" -> Ev.v = T!Inf /\ Ev.r = T!Inf
         [] Ev.e = "le" -> Ev.le = Bit(T!Le(Ev.v, Ev.r))
         [] Ev.e = "end" -> TRUE
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
