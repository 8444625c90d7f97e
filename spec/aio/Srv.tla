-------------------------------- MODULE Srv --------------------------------
(* Listening TCP servers as their users see them (C24): a server gives away every connection
   which the kernel has established for it, once, until it is closed. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Rq(_, _)
VARIABLE sv
svars == <<sv>>

NewSrv == [
    st |-> "none",          \* none, bound, unused: closed without listening, open, closed
    closeCalled |-> FALSE, closeSure |-> FALSE,
    est |-> {},             \* connections established
    acc |-> {},             \* given to the user
    gone |-> {}             \* lost inside of the kernel
    ]
SrvInit(S) == sv = [k \in S |-> NewSrv]
Upd(k, r) == sv' = [sv EXCEPT ![k] = r]

Bind(k, ok) == Rq({"C24"}, ok) /\ sv[k].st = "none" /\ Upd(k, [sv[k] EXCEPT !.st = "bound"])
NeverUsed(k) == sv[k].st = "bound" /\ Upd(k, [sv[k] EXCEPT !.st = "unused", !.closeCalled = TRUE])
Listen(k) == sv[k].st = "bound" /\ Upd(k, [sv[k] EXCEPT !.st = "open"])
ListenRet(k) == UNCHANGED svars
CloseCall(k) == Upd(k, [sv[k] EXCEPT !.closeCalled = TRUE])
CloseRet(k) == Upd(k, [sv[k] EXCEPT !.closeSure = TRUE])

Established(k, i) == sv[k].st = "open" /\ Upd(k, [sv[k] EXCEPT !.est = @ \cup {i}])
Lost(k, i) == Upd(k, [sv[k] EXCEPT !.gone = @ \cup {i}])
Accept(k, i, ok) ==
    LET s == sv[k] IN
    /\ Rq({"C24"}, ok /\ s.st = "open" /\ i \in s.est \ (s.acc \cup s.gone))
    /\ Upd(k, [s EXCEPT !.acc = @ \cup {i}])
Closed(k) ==
    /\ Rq({"C24"}, sv[k].st = "open" /\ sv[k].closeCalled)
    /\ Upd(k, [sv[k] EXCEPT !.st = "closed"])
\* Told to be closed or not; was: the closed notification was before the question.
IsClosed(k, was, v) ==
    /\ Rq({"C24"}, /\ v => sv[k].closeCalled
                   /\ was => v)
    /\ UNCHANGED svars
\* Another server on the same port, from the closed notification on.
Rebind(k, ok) == Rq({"C24"}, ok) /\ sv[k].st = "closed" /\ UNCHANGED svars

\* Nothing is going to happen on its own. q: connections which wait in the kernel.
Idle(k, q) ==
    LET s == sv[k] IN
    /\ Rq({"C24"}, s.st = "open" => /\ ~s.closeSure
                                    /\ ~s.closeCalled => q = 0 /\ s.est = s.acc \cup s.gone)
    /\ UNCHANGED svars

TypeOK == \A k \in DOMAIN sv : sv[k].acc \subseteq sv[k].est /\ sv[k].acc \cap sv[k].gone = {}
=============================================================================
