-------------------------------- MODULE Sio --------------------------------
(* Synchronous sockets and their server (C26). Every operation comes with what the kernel knew
   about the socket before it (b) and after it (a), and with the failure it injected (f: 0 - no,
   -1 - try later, otherwise a code of error). The results and the states must be the truth. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES en,   \* the ends of the connections
          sv,   \* the server: "closed", "bound", "listening"
          ac    \* accepted connections
svars == <<en, sv, ac>>

Closed == 0
Connecting == 1
Connected == 2
NoEnd == [st |-> Closed, c |-> 0, acc |-> 0, got |-> 0]
SioInit(N) == en = [i \in 1..N |-> NoEnd] /\ sv = "closed" /\ ac = {}

\* The kernel's knowledge.
Kind(x) == x[1]
Err(x) == x[2]
Rx(x) == x[3]
Fin(x) == x[4] = 1
Room(x) == x[5] = 1
Tx(x) == x[6]
IsOpen(x) == x[7] = 1
KSyn == 1
KConn == 2
KDead == 3
Min2(x, y) == IF x < y THEN x ELSE y

To(i, st) == en' = [en EXCEPT ![i].st = st] /\ UNCHANGED <<sv, ac>>
Gone(i, a, st) == st = Closed /\ ~IsOpen(a) /\ To(i, Closed)
Stays(i, a, st) == st = en[i].st /\ IsOpen(a) /\ To(i, st)

Connect(i, c, sf, p, im, r, er, st, a) ==
    /\ en[i].st = Closed
    /\ LET fail == sf # 0 \/ (im /\ p # 0) IN
       IF fail THEN /\ ~r /\ er = (IF sf # 0 THEN sf ELSE p) /\ st = Closed /\ ~IsOpen(a)
                    /\ UNCHANGED svars
       ELSE /\ r /\ er = 0 /\ IsOpen(a)
            /\ st = (IF im /\ Kind(a) = KConn THEN Connected ELSE Connecting)
            /\ en' = [en EXCEPT ![i] = [st |-> st, c |-> c, acc |-> 0, got |-> 0]]
            /\ UNCHANGED <<sv, ac>>

\* Of an accepted connection.
Wrap(i, c, st, a) ==
    /\ en[i].st = Closed /\ st = Connected /\ IsOpen(a) /\ c \in ac
    /\ en' = [en EXCEPT ![i] = [st |-> Connected, c |-> c, acc |-> 0, got |-> 0]]
    /\ UNCHANGED <<sv, ac>>

Update(i, b, a, f, r, er, st) ==
    LET e == en[i]
        out == e.acc - Tx(b) IN
    CASE e.st = Closed -> r /\ er = 0 /\ st = Closed /\ UNCHANGED svars
      [] e.st = Connecting /\ Kind(b) = KSyn -> r /\ er = 0 /\ Stays(i, a, st)
      [] e.st = Connecting /\ Kind(b) = KConn -> r /\ er = 0 /\ st = Connected /\ IsOpen(a) /\ To(i, Connected)
      [] e.st = Connecting /\ Kind(b) = KDead -> ~r /\ er # 0 /\ (Err(b) # 0 => er = Err(b)) /\ Gone(i, a, st)
      [] e.st = Connected /\ out = 0 -> r /\ er = 0 /\ Tx(a) = Tx(b) /\ Stays(i, a, st)
      [] e.st = Connected /\ out > 0 /\ f = -1 -> r /\ er = 0 /\ Tx(a) = Tx(b) /\ Stays(i, a, st)
      [] e.st = Connected /\ out > 0 /\ f > 0 -> ~r /\ er = f /\ Gone(i, a, st)
      [] e.st = Connected /\ out > 0 /\ f = 0 /\ Kind(b) = KDead -> ~r /\ er # 0 /\ (Err(b) # 0 => er = Err(b)) /\ Gone(i, a, st)
      [] e.st = Connected /\ out > 0 /\ f = 0 /\ Kind(b) = KConn ->
            /\ r /\ er = 0 /\ Tx(a) >= Tx(b) /\ Tx(a) <= e.acc /\ Stays(i, a, st)
            /\ Room(b) => Tx(a) > Tx(b)

Send(i, n, b, a, st) ==
    /\ st = en[i].st /\ Tx(a) = Tx(b) /\ IsOpen(a) = IsOpen(b)
    /\ en' = [en EXCEPT ![i].acc = @ + (IF st = Closed THEN 0 ELSE n)]
    /\ UNCHANGED <<sv, ac>>

Recv(i, m, ok, b, a, f, r, er, st) ==
    LET e == en[i] IN
    /\ e.st = Connected
    /\ ok
    /\ IF Rx(b) > 0 THEN
           /\ r \in 1..Min2(m, Rx(b)) /\ er = 0 /\ st = Connected /\ IsOpen(a)
           /\ Rx(a) = Rx(b) - r
           /\ en' = [en EXCEPT ![i].got = @ + r] /\ UNCHANGED <<sv, ac>>
       ELSE IF f > 0 THEN r < 0 /\ er = f /\ Gone(i, a, st)
       ELSE IF Fin(b) THEN r = 0 /\ er = 0 /\ Gone(i, a, st)
       ELSE IF Err(b) # 0 THEN r < 0 /\ er = Err(b) /\ Gone(i, a, st)
       ELSE IF Kind(b) = KDead THEN r <= 0 /\ (r < 0 => er # 0) /\ Gone(i, a, st)
       ELSE r < 0 /\ er = 0 /\ Stays(i, a, st)

Close(i, a, st) == Gone(i, a, st)

(**************************************************************************************)
Bind(w, g, nb, busy, x, r, er) ==
    /\ sv = "closed"
    /\ IF x # 0 THEN ~r /\ er = x /\ UNCHANGED svars
       ELSE IF busy THEN ~r /\ er # 0 /\ UNCHANGED svars
       ELSE /\ r /\ er = 0 /\ nb /\ g # 0 /\ (w # 0 => g = w)
            /\ sv' = "bound" /\ UNCHANGED <<en, ac>>
Listen(x, r, er, open) ==
    /\ sv = "bound"
    /\ IF x # 0 THEN ~r /\ er = x /\ ~open /\ sv' = "closed" ELSE r /\ er = 0 /\ open /\ sv' = "listening"
    /\ UNCHANGED <<en, ac>>
ServerClose(open) == ~open /\ sv' = "closed" /\ UNCHANGED <<en, ac>>

\* Failures of connections, not of the server.
\* ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ECONNABORTED, EINTR
Transient == {100, 71, 92, 112, 64, 113, 95, 101, 103, 4}
Accept(q, h, f, fc, r, c, ok, er, open) ==
    /\ sv = "listening"
    /\ IF f \in Transient THEN ~r /\ er = 0 /\ open /\ UNCHANGED svars
       ELSE IF f # 0 THEN ~r /\ er = fc /\ ~open /\ sv' = "closed" /\ UNCHANGED <<en, ac>>
       ELSE IF q > 0 THEN /\ r /\ c = h /\ c \notin ac /\ ok /\ er = 0 /\ open
                          /\ ac' = ac \cup {c} /\ UNCHANGED <<en, sv>>
       ELSE ~r /\ er = 0 /\ open /\ UNCHANGED svars

\* Nothing more is going to happen on its own.
End(i, o, both) ==
    /\ both => en[o].got = en[i].acc
    /\ UNCHANGED svars
=============================================================================
