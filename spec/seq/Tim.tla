-------------------------------- MODULE Tim --------------------------------
(* Time limits: the greatest number means infinity. *)
EXTENDS Num64
Inf == MaxNum
\* A duration from now as a point in time.
ToPoint(d, now) == LET s == Add(now, d) IN IF d = Inf \/ s.o = 1 THEN Inf ELSE s.v
\* A point in time as a duration from now.
ToDuration(p, now) == IF p = Inf THEN Inf ELSE IF Le(p, now) THEN Zero ELSE Sub(p, now)
=============================================================================
