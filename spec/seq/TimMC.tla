------------------------------- MODULE TimMC -------------------------------
(* The conversions over every number of a small base. *)
EXTENDS Tim, TLC
VARIABLES a, b, now
Init == a \in Nums /\ b \in Nums /\ now \in Nums
Next == UNCHANGED <<a, b, now>>
Spec == Init /\ [][Next]_<<a, b, now>>
Infinite == ToPoint(Inf, now) = Inf /\ ToDuration(Inf, now) = Inf
Immediate == ToPoint(Zero, now) = now /\ ToDuration(now, now) = (IF now = Inf THEN Inf ELSE Zero)
NoWrap == Le(now, ToPoint(a, now)) /\ (a # Zero /\ now # Inf => ~Le(ToPoint(a, now), now))
Order == /\ Le(a, b) => Le(ToPoint(a, now), ToPoint(b, now)) /\ Le(ToDuration(a, now), ToDuration(b, now))
         /\ Le(a, b) => Le(ToPoint(now, a), ToPoint(now, b)) /\ (now # Inf => Le(ToDuration(now, b), ToDuration(now, a)))
RoundTrip == /\ Le(now, a) => ToPoint(ToDuration(a, now), now) = a
             /\ ToPoint(a, now) # Inf => ToDuration(ToPoint(a, now), now) = a
=============================================================================
