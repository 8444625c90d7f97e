------------------------------ MODULE DnsTrace ------------------------------
(* Accepts the traces of drv/dns.cpp. *)
EXTENDS Dns, Trc

VARIABLE wait   \* blocking request -> its answer
vars == <<dvars, wait, trcVars>>
Init == TrcInit /\ DInit /\ wait = <<>>

N(i) == TCfg.names[i]
\* Addresses of known families without repetitions, in order.
RECURSIVE Uniq(_)
Uniq(a) == IF a = <<>> THEN <<>>
           ELSE LET x == a[Len(a)]
                    r == Uniq(SubSeq(a, 1, Len(a) - 1))
                IN IF x = 0 \/ \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)
Found(i) == IF N(i).rc # 0 THEN <<>> ELSE Uniq(N(i).a)

\* The resolver's answer agrees with the name.
Fits(nm, r, a) == CASE r = "ok" -> a = Found(nm) /\ a # <<>>
                    [] r = "err" -> a = <<>> /\ Found(nm) = <<>>
                    [] OTHER -> a = <<>>

Step == Consume /\
    \/ Ev.e = "rq" /\ Ev.t = now /\ Request(Ev.k, Ev.nm, Ev.lim) /\ UNCHANGED wait
    \/ Ev.e = "rr" /\ Requested(Ev.k) /\ UNCHANGED wait
    \/ Ev.e = "cr" /\ UNCHANGED <<dvars, wait>>
    \/ Ev.e = "ca" /\ Cancel(Ev.k) /\ UNCHANGED wait
    \/ Ev.e = "rs" /\ Ev.t = now /\ Start(Ev.nm) /\ UNCHANGED wait
    \/ /\ Ev.e = "cb" /\ Ev.t = now /\ Answer(Ev.k, Ev.r)
       /\ Ev.nm = req[Ev.k].nm /\ Fits(Ev.nm, Ev.r, Ev.a) /\ UNCHANGED wait
    \* The answer came before and nothing shows it.
    \/ /\ Ev.e = "bl" /\ Ev.k \in DOMAIN wait /\ wait[Ev.k] = Ev.r
       /\ (Ev.ok = 1) = (Ev.r = "ok")
       /\ Fits(req[Ev.k].nm, Ev.r, Ev.a) /\ UNCHANGED <<dvars, wait>>
    \/ Ev.e = "tick" /\ Clock(Ev.to) /\ UNCHANGED wait
    \* Time runs by itself only when there is nothing to do.
    \/ Ev.e = "jump" /\ AllDone /\ Clock(Ev.to) /\ UNCHANGED wait
    \/ Ev.e = "idle" /\ AllDone /\ Ev.inf = 0 /\ UNCHANGED <<dvars, wait>>
    \/ Ev.e = "end" /\ UNCHANGED <<dvars, wait>>

\* Blocking requests have no visible callback.
Hidden(k) == \E i \in l..Len(Tr) : Tr[i].e = "bl" /\ Tr[i].k = k
Blk == /\ More
       /\ \E k \in DOMAIN req :
             /\ Pending(k) /\ Hidden(k)
             /\ LET r == (CHOOSE i \in l..Len(Tr) : Tr[i].e = "bl" /\ Tr[i].k = k) IN
                /\ Answer(k, Tr[r].r) /\ wait' = (k :> Tr[r].r) @@ wait
       /\ Silent

Next == Step \/ Blk
Spec == Init /\ [][Next]_vars
=============================================================================
