-------------------------------- MODULE Dns --------------------------------
(* Domain resolution. A request is pending from its call till its answer. The resolver takes
   pending requests one by one; a request is answered with a timeout, if its time has passed,
   with a cancellation, if it was asked for, or with what the resolver found for its name. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
    now,   \* the clock
    req,   \* request -> [nm, lim (-1 = none), lo and hi: bounds of the deadline (hi -1 = not known
           \* yet), st: pending or answered, can: asked to cancel]
    cur    \* the name being resolved, 0 = none, and since when: <<name, time>>
dvars == <<now, req, cur>>

DInit == now = 0 /\ req = <<>> /\ cur = <<0, 0>>

\* A new one gets the next number.
Request(k, nm, lim) ==
    /\ k \notin DOMAIN req
    /\ req' = (k :> [nm |-> nm, lim |-> lim, lo |-> now + lim, hi |-> -1, st |-> "pending", can |-> FALSE]) @@ req
    /\ UNCHANGED <<now, cur>>
\* The call has returned: the clock was read before.
Requested(k) ==
    /\ req' = [req EXCEPT ![k].hi = now + req[k].lim] /\ UNCHANGED <<now, cur>>
Cancel(k) ==
    /\ k \in DOMAIN req /\ req' = [req EXCEPT ![k].can = TRUE] /\ UNCHANGED <<now, cur>>

Pending(k) == req[k].st = "pending"
Expired(k, t) == req[k].lim >= 0 /\ req[k].hi # -1 /\ req[k].hi <= t
MayExpired(k, t) == req[k].lim >= 0 /\ req[k].lo <= t
\* The resolver starts a name for one of the requests which still have time.
Start(nm) ==
    /\ cur[1] = 0
    /\ \E k \in DOMAIN req : Pending(k) /\ req[k].nm = nm /\ ~Expired(k, now)
    /\ cur' = <<nm, now>> /\ UNCHANGED <<now, req>>

\* Answers which are possible now.
MayTimeout(k) == MayExpired(k, now)
MayCancel(k) == req[k].can
\* Only for which it was started.
MayResult(k) == cur[1] # 0 /\ req[k].nm = cur[1] /\ ~Expired(k, cur[2])
Answer(k, r) ==
    /\ k \in DOMAIN req /\ Pending(k)
    /\ req' = [req EXCEPT ![k].st = "answered"]
    /\ CASE r = "timeout" -> MayTimeout(k) /\ cur[1] = 0 /\ UNCHANGED cur
         [] r = "cancel" -> MayCancel(k) /\ cur[1] = 0 /\ UNCHANGED cur
         [] OTHER -> MayResult(k) /\ cur' = <<0, 0>>
    /\ UNCHANGED now
Clock(t) == t >= now /\ now' = t /\ UNCHANGED <<req, cur>>
\* Nothing waits when nothing can run.
AllDone == cur[1] = 0 /\ \A k \in DOMAIN req : ~Pending(k)
\* Any step, for K requests, NM names and limits Lims.
DNext(K, NM, Lims) ==
    \/ \E k \in 1..K, nm \in 1..NM, lim \in Lims : Request(k, nm, lim)
    \/ \E k \in DOMAIN req : Requested(k) \/ Cancel(k) \/ \E r \in {"ok", "timeout", "cancel"} : Answer(k, r)
    \/ \E nm \in 1..NM : Start(nm)
    \/ Clock(now + 1)
=============================================================================
