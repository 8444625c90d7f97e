------------------------------ MODULE StmImpl ------------------------------
(* One pair of streams over OpenSSL at the level of records: the state machine of
   SSLStreamOpenSSL and the wire between the two, which delivers in any pieces. The states which
   it reaches are compared with what the specification of the streams permits (Stm). *)
EXTENDS Stm, TLC

CONSTANTS
    V13,      \* TRUE: the client is connected one flight earlier
    MaxApp,   \* application records given to a side
    Good,     \* FALSE: the client refuses the certificate
    MaxDam    \* damages of the wire

VARIABLES
    appIn,   \* side -> records which wait for the handshake
    netIn,   \* side -> atoms not consumed. A record is two atoms: <<record, 1>>, <<record, 2>>
    wire,    \* side -> atoms sent to the other side, including what was not taken yet
    hs,      \* side -> flights of the handshake done
    sentN, gotN,  \* side -> close notification sent or received
    nxt,     \* side -> the next record of the other side expected by its user
    dead,    \* side -> the connection is broken: nothing can be read or written
    ok, act  \* the last call agreed with the specification; which call on which side
ivars == <<appIn, netIn, wire, hs, sentN, gotN, nxt, dead, ok, act>>
vars == <<svars, ivars>>

Cfg == [lo1 |-> 2, hi1 |-> 3, lo2 |-> 2, hi2 |-> IF V13 THEN 3 ELSE 2, bad |-> IF Good THEN 0 ELSE 1]
SS == Sides(1)
Cl == <<1, 1>>
Se == <<1, 2>>

\* Records: clear ("c"), flights ("h"), application ("a"), close notification ("n"), alert ("x").
Rec(k, i) == [k |-> k, i |-> i, bad |-> FALSE]
Atoms(r) == <<[r |-> r, h |-> 1], [r |-> r, h |-> 2]>>

Init == /\ SInit(1)
        /\ appIn = [s \in SS |-> <<>>] /\ netIn = [s \in SS |-> <<>>] /\ wire = [s \in SS |-> <<>>]
        /\ hs = [s \in SS |-> 0] /\ sentN = [s \in SS |-> FALSE] /\ gotN = [s \in SS |-> FALSE]
        /\ nxt = [s \in SS |-> 0] /\ dead = [s \in SS |-> FALSE]
        /\ ok = TRUE /\ act = "none"

\* The part of the state which calls change, as one record.
Cur(s) == [st |-> rank[s], er |-> err[s], app |-> appIn[s], in |-> netIn[s], out |-> <<>>, hs |-> hs[s],
           sn |-> sentN[s], gn |-> gotN[s], dead |-> dead[s], got |-> <<>>]

HasRec(m) == Len(m.in) >= 2
FirstRec(m) == m.in[1].r
Eat(m) == [m EXCEPT !.in = SubSeq(@, 3, Len(@))]
Send(m, r) == [m EXCEPT !.out = @ \o Atoms(r)]
Broken(m) == HasRec(m) /\ (FirstRec(m).bad \/ m.in[2].r.bad)

SetState(m, n) == [m EXCEPT !.st = n, !.app = IF n >= 3 THEN <<>> ELSE @]
\* SSL_shutdown. Sends the notification, tells whether both were exchanged.
Notify(m) == IF m.sn \/ m.dead THEN m ELSE [Send(m, Rec("n", 0)) EXCEPT !.sn = TRUE]
\* PrivClose with an error.
Close(m) == IF m.st = 4 THEN m
            ELSE LET e == [m EXCEPT !.er = TRUE] IN
                 IF e.st = 3 THEN SetState(e, 4)
                 \* A dead connection does not send anything and reports a failure.
                 ELSE IF e.dead THEN SetState(e, 4) ELSE SetState(Notify(e), IF e.gn THEN 4 ELSE 3)
\* A fatal alert to the peer.
Fatal(m) == Close([Send(m, Rec("x", 0)) EXCEPT !.dead = TRUE])
\* The peer's fatal alert.
FatalIn(m) == Close([Eat(m) EXCEPT !.dead = TRUE])

\* The handshake: client 1, server 2, client 3 (and server 4, if not V13).
Mine(s, f) == IF s = Cl THEN f % 2 = 1 ELSE f % 2 = 0
Last == IF V13 THEN 3 ELSE 4
RECURSIVE Shake(_, _)
Shake(s, m) ==
    IF m.hs = Last THEN SetState(m, 2)
    ELSE IF Mine(s, m.hs + 1) THEN Shake(s, [Send(m, Rec("h", m.hs + 1)) EXCEPT !.hs = @ + 1])
    ELSE IF ~HasRec(m) THEN m
    ELSE IF Broken(m) THEN Fatal(Eat(m))
    ELSE IF FirstRec(m).k = "x" THEN FatalIn(m)
    ELSE IF FirstRec(m).k = "n" THEN Close([Eat(m) EXCEPT !.gn = TRUE])
    ELSE IF FirstRec(m).k # "h" THEN Fatal(Eat(m))
    ELSE IF s = Cl /\ ~Good /\ m.hs = 1 THEN Fatal(Eat(m))
    ELSE Shake(s, [Eat(m) EXCEPT !.hs = @ + 1])

RECURSIVE Flush(_)
Flush(m) == IF m.app = <<>> THEN m ELSE Flush([Send(m, Rec("a", Head(m.app))) EXCEPT !.app = Tail(@)])

\* PrivUpdate. It goes on (TRUE) only when connected.
Upd(s, m) ==
    CASE m.st = 2 -> Flush(m)
      [] m.st = 1 -> Shake(s, m)
      [] m.st = 3 -> LET e == Notify(m) IN
                     IF e.gn THEN SetState(e, 4)
                     ELSE IF e.dead THEN Close(e)
                     ELSE IF ~m.sn THEN e        \* the first call only sends
                     ELSE IF ~HasRec(e) THEN e
                     ELSE IF Broken(e) THEN Fatal(Eat(e))
                     ELSE IF FirstRec(e).k = "n" THEN SetState([Eat(e) EXCEPT !.gn = TRUE], 4)
                     ELSE IF FirstRec(e).k = "x" THEN FatalIn(e)
                     ELSE IF FirstRec(e).k = "h" THEN Eat(e)
                     ELSE Close([Eat(e) EXCEPT !.dead = TRUE])    \* application data after the close
      [] OTHER -> m

RECURSIVE Read(_)
Read(m) ==
    IF ~HasRec(m) THEN m
    ELSE IF Broken(m) THEN Fatal(Eat(m))
    ELSE IF FirstRec(m).k = "a" THEN Read([Eat(m) EXCEPT !.got = Append(@, FirstRec(m).i)])
    ELSE IF FirstRec(m).k = "h" THEN Read(Eat(m))
    ELSE IF FirstRec(m).k = "n" THEN SetState([Eat(m) EXCEPT !.gn = TRUE], 3)
    ELSE IF FirstRec(m).k = "x" THEN FatalIn(m)
    ELSE Fatal(Eat(m))

\* Writes m back and checks the call against the specification.
Put(s, m, a) ==
    /\ rank' = [rank EXCEPT ![s] = m.st] /\ err' = [err EXCEPT ![s] = m.er]
    /\ appIn' = [appIn EXCEPT ![s] = m.app] /\ netIn' = [netIn EXCEPT ![s] = m.in]
    /\ wire' = [wire EXCEPT ![s] = @ \o m.out]
    /\ hs' = [hs EXCEPT ![s] = m.hs] /\ sentN' = [sentN EXCEPT ![s] = m.sn]
    /\ gotN' = [gotN EXCEPT ![s] = m.gn] /\ dead' = [dead EXCEPT ![s] = m.dead]
    /\ act' = a
    /\ ok' = /\ MayRank(Cfg, s, m.st, a)
             /\ m.er /\ ~err[s] => MayErr(Cfg, s, a)
             /\ m.er => m.st >= 3
             /\ m.st >= 3 => m.app = <<>>
             \* What was given before the handshake goes out with the first call after it.
             /\ rank[s] = 2 /\ m.st = 2 => m.app = <<>>

Unclear(s) == rank[s] = 0 => rank[Other(s)] = 0
Given(s) == acc[s] < MaxApp /\ Unclear(s)
App(s) ==
    /\ Given(s)
    /\ LET u == Upd(s, Cur(s))
           m == CASE u.st = 0 -> Send(u, Rec("c", acc[s]))
                  [] u.st = 1 -> [u EXCEPT !.app = Append(@, acc[s])]
                  [] u.st = 2 /\ u.app # <<>> -> [u EXCEPT !.app = Append(@, acc[s])]
                  [] u.st = 2 /\ u.app = <<>> -> Send(u, Rec("a", acc[s]))
                  [] OTHER -> u IN
       /\ Put(s, m, "ap")
       /\ acc' = [acc EXCEPT ![s] = IF rank[s] >= 3 THEN @ ELSE @ + 1]
       /\ due' = [due EXCEPT ![s] = IF rank[s] = 2 /\ m.st = 2 THEN acc'[s] ELSE @]
       /\ clr' = [clr EXCEPT ![s] = IF m.st = 0 THEN @ + 1 ELSE @]
    /\ UNCHANGED <<del, fed, stop, dam, sure, drop, nxt>>

\* Both users switch to encryption after they have got all the data in clear.
Conn(s) ==
    /\ rank[s] = 0 /\ del[s] = clr[Other(s)] /\ (rank[Other(s)] = 0 \/ rank[Other(s)] = 1 \/ rank[Other(s)] = 2)
    /\ netIn[s] = <<>> \/ rank[Other(s)] > 0
    /\ Put(s, [Cur(s) EXCEPT !.st = 1], "cn")
    /\ UNCHANGED <<acc, due, del, clr, fed, stop, dam, sure, drop, nxt>>

\* Every call updates the stream.
Update(s) ==
    /\ rank[s] > 0
    /\ LET m == Upd(s, Cur(s)) IN
       /\ m # Cur(s) /\ Put(s, m, "up")
       /\ due' = [due EXCEPT ![s] = IF rank[s] = 2 /\ m.st = 2 THEN acc[s] ELSE @]
    /\ UNCHANGED <<acc, del, clr, fed, stop, dam, sure, drop, nxt>>

Pop(s) ==
    /\ LET u == IF rank[s] = 0 THEN Cur(s) ELSE Upd(s, Cur(s))
           m == CASE rank[s] = 0 /\ netIn[s] # <<>> /\ Len(netIn[s]) % 2 = 0 ->
                       [u EXCEPT !.in = <<>>, !.got = [i \in 1..(Len(u.in) \div 2) |-> u.in[2 * i].r.i]]
                  [] u.st = 2 -> Read(u)
                  [] OTHER -> u
           \* An error discards what was read by this call.
           got == IF m.er THEN <<>> ELSE m.got
       IN /\ m # Cur(s)
          /\ Put(s, m, "po")
          /\ due' = [due EXCEPT ![s] = IF rank[s] = 2 /\ m.st = 2 THEN acc[s] ELSE @]
          /\ del' = [del EXCEPT ![s] = @ + Len(got)]
          /\ nxt' = [nxt EXCEPT ![s] = IF \A i \in 1..Len(got) : got[i] = nxt[s] + i - 1 THEN @ + Len(got) ELSE 99]
    /\ UNCHANGED <<acc, clr, fed, stop, dam, sure, drop>>

Feed(s) ==
    LET o == Other(s) IN
    /\ wire[o] # <<>>
    /\ \E k \in 1..(IF Len(wire[o]) > 3 THEN 3 ELSE Len(wire[o])) :
          \* The part in clear is fed before the connect, the rest is not.
          /\ rank[s] = 0 => \A i \in 1..k : wire[o][i].r.k = "c"
          /\ netIn' = [netIn EXCEPT ![s] = @ \o SubSeq(wire[o], 1, k)]
          /\ wire' = [wire EXCEPT ![o] = SubSeq(@, k + 1, Len(@))]
          /\ fed' = [fed EXCEPT ![s] = @ + k]
    /\ act' = "ni" /\ ok' = TRUE
    /\ UNCHANGED <<rank, err, acc, due, del, clr, stop, dam, sure, drop, appIn, hs, sentN, gotN, nxt, dead>>

Shut(s) ==
    /\ rank[s] \in 1..3 /\ stop[s] = -1 /\ rank[Other(s)] > 0
    /\ LET m == Cur(s)
           n == CASE m.st = 3 -> m
                  \* SSL_shutdown is not possible during the handshake.
                  [] m.st = 1 -> Close([m EXCEPT !.dead = TRUE])
                  [] OTHER -> LET e == Notify(m) IN SetState(e, IF e.gn THEN 4 ELSE 3)
       IN Put(s, n, "sh")
    /\ stop' = [stop EXCEPT ![s] = rank[s]]
    /\ UNCHANGED <<acc, due, del, clr, fed, dam, sure, drop, nxt>>

Damage(s) ==
    /\ ~dam[1] /\ MaxDam > 0 /\ rank[s] > 0
    /\ \E i \in 1..Len(wire[Other(s)]) :
          /\ ~wire[Other(s)][i].r.k = "c"
          /\ wire' = [wire EXCEPT ![Other(s)][i].r.bad = TRUE]
          /\ sure' = [sure EXCEPT ![s] = rank[s] = 2 /\ wire[Other(s)][i].r.k = "a"]
    /\ dam' = [dam EXCEPT ![1] = TRUE]
    /\ act' = "dm" /\ ok' = TRUE
    /\ UNCHANGED <<rank, err, acc, due, del, clr, fed, stop, drop, appIn, netIn, hs, sentN, gotN, nxt, dead>>

Work(s) == Update(s) \/ Pop(s) \/ Feed(s)
Next == \E s \in SS : App(s) \/ Conn(s) \/ Work(s) \/ Shut(s) \/ Damage(s)
Spec == Init /\ [][Next]_vars

Agrees == ok
InOrder == \A s \in SS : nxt[s] = del[s] /\ del[s] <= acc[Other(s)]
NoWork == \A s \in SS : ~ENABLED Work(s)
W(s) == IF wire[s] = <<>> THEN 0 ELSE 1
\* Whenever nothing is left to carry the specification's demands for silence hold.
QuietOk == NoWork => Quiet(Cfg, 1, W(Cl), W(Se))
=============================================================================
