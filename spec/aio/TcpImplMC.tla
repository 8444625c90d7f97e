----------------------------- MODULE TcpImplMC -----------------------------
\* Configurations of TcpImpl.
EXTENDS TcpImpl
CONSTANTS t1, t2
Snd(c, n) == [op |-> "send", c |-> c, n |-> n]
Rcv(c) == [op |-> "recv", c |-> c, n |-> 0]
Cls(c) == [op |-> "close", c |-> c, n |-> 0]
Sht(c) == [op |-> "shut", c |-> c, n |-> 0]
Two == {t1, t2}
One == {t1}
None == <<>>
\* Sends of two threads and of the callback.
ScrA == t1 :> <<Snd(1, 3), Snd(2, 1)>> @@ t2 :> <<Snd(3, 1)>>
ConA == <<Snd(4, 1), Rcv(5)>>
\* Requests for data.
ScrB == t1 :> <<Rcv(1), Rcv(2)>> @@ t2 :> <<Rcv(3)>>
\* Two lives.
ScrC == t1 :> <<Snd(1, 2), Cls(2), Snd(3, 1)>>
ScrC2 == t1 :> <<Cls(1), Rcv(2)>>
ConC == <<Rcv(5)>>
ClsC == <<Snd(6, 1), Rcv(7)>>
\* Shutdown.
ScrD == t1 :> <<Snd(1, 1), Sht(2)>> @@ t2 :> <<Rcv(3)>>
ScrE == t1 :> <<Cls(1)>> @@ t2 :> <<Cls(2), Snd(3, 1)>>
No == {}
Shut == {"shut"}
Abort == {"abort"}
Both == {"shut", "abort"}
=============================================================================
