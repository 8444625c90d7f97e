------------------------------ MODULE DnsImpl ------------------------------
(* The resolver's algorithm: users put requests and cancellations to lists under a mutex and
   signal when a list was empty; the worker takes the lists to its main queue, drops what has
   expired, resolves up to Batch requests, and sleeps when there is nothing. Every step must be
   one of the specification of domain resolution. *)
EXTENDS Dns

CONSTANTS K, NM, Lims, MaxNow, Batch
LimsA == {-1, 0, 1}
LimsB == {-1, 1}

VARIABLES
    front, fcancel,   \* the shared lists
    main,             \* the worker's queue; the heap holds the same requests
    pc, left,         \* the worker: step, what is left of the batch
    got, gcan,        \* lists taken
    sig,              \* the condition was signaled while the worker waits
    calls             \* request -> "called" (deadline is known, not posted), "posted", "done"
ivars == <<front, fcancel, main, pc, left, got, gcan, sig, calls>>
vars == <<dvars, ivars>>

Init == /\ DInit /\ front = <<>> /\ fcancel = <<>> /\ main = <<>> /\ pc = "main" /\ left = Batch
        /\ got = <<>> /\ gcan = <<>> /\ sig = FALSE /\ calls = <<>>

Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* dl is decided by the call, between lo and hi.
New(nm, lim) ==
    LET k == Cardinality(DOMAIN req) + 1 IN
    /\ k <= K
    /\ req' = (k :> [nm |-> nm, lim |-> lim, lo |-> now + lim, hi |-> -1, st |-> "pending", can |-> FALSE]) @@ req
    /\ calls' = (k :> [st |-> "called", dl |-> now + lim]) @@ calls
    /\ UNCHANGED <<now, cur, front, fcancel, main, pc, left, got, gcan, sig>>
Post(k) ==
    /\ calls[k].st = "called"
    /\ calls' = [calls EXCEPT ![k].st = "posted"]
    /\ front' = Append(front, k)
    /\ sig' = (sig \/ (pc = "wait" /\ front = <<>>))
    /\ UNCHANGED <<dvars, fcancel, main, pc, left, got, gcan>>
Return(k) ==
    /\ calls[k].st = "posted" /\ req[k].hi = -1
    /\ req' = [req EXCEPT ![k].hi = now + req[k].lim]
    /\ UNCHANGED <<now, cur, ivars>>
CancelIt(k) ==
    /\ calls[k].st = "posted" /\ req[k].hi # -1 /\ ~req[k].can
    /\ req' = [req EXCEPT ![k].can = TRUE]
    /\ fcancel' = Append(fcancel, k)
    /\ sig' = (sig \/ (pc = "wait" /\ fcancel = <<>>))
    /\ UNCHANGED <<now, cur, front, main, pc, left, got, gcan, calls>>
Tick == /\ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<req, cur, ivars>>

Due(k) == req[k].lim >= 0 /\ calls[k].dl <= now
Done(k) == req' = [req EXCEPT ![k].st = "answered"]
\* One step of the loop in the main queue.
Expire == /\ pc = "main" /\ main # <<>> /\ left > 0
          /\ \E k \in Range(main) : Due(k) /\ Done(k) /\ main' = Without(main, k)
          /\ UNCHANGED <<now, cur, front, fcancel, pc, left, got, gcan, sig, calls>>
\* The time was read, nothing was due.
Begin == /\ pc = "main" /\ main # <<>> /\ left > 0 /\ (\A k \in Range(main) : ~Due(k))
         /\ cur' = <<req[Head(main)].nm, now>> /\ pc' = "resolve"
         /\ UNCHANGED <<now, req, front, fcancel, main, left, got, gcan, sig, calls>>
Finish == /\ pc = "resolve" /\ Done(Head(main)) /\ main' = Tail(main) /\ cur' = <<0, 0>>
          /\ pc' = "main" /\ left' = left - 1
          /\ UNCHANGED <<now, front, fcancel, got, gcan, sig, calls>>
EndMain == /\ pc = "main" /\ (main = <<>> \/ left = 0) /\ pc' = "front" /\ left' = Batch
           /\ UNCHANGED <<dvars, front, fcancel, main, got, gcan, sig, calls>>
Take == got' = front /\ gcan' = fcancel /\ front' = <<>> /\ fcancel' = <<>> /\ pc' = "apply"
Lock == /\ pc = "front"
        /\ IF main = <<>> /\ front = <<>> /\ fcancel = <<>>
           THEN pc' = "wait" /\ sig' = FALSE /\ UNCHANGED <<front, fcancel, got, gcan>>
           ELSE Take /\ UNCHANGED sig
        /\ UNCHANGED <<dvars, main, left, calls>>
Wake == /\ pc = "wait" /\ sig /\ Take /\ sig' = FALSE /\ UNCHANGED <<dvars, main, left, calls>>
\* Pushes what is new, then takes the cancellations one by one.
Apply == /\ pc = "apply"
         /\ IF got # <<>> THEN main' = main \o got /\ got' = <<>> /\ UNCHANGED <<req, gcan, pc>>
            ELSE IF gcan = <<>> THEN pc' = "main" /\ UNCHANGED <<req, main, got, gcan>>
            ELSE LET k == Head(gcan) IN
                 /\ gcan' = Tail(gcan)
                 /\ IF k \in Range(main) THEN Done(k) /\ main' = Without(main, k)
                    ELSE UNCHANGED <<req, main>>
                 /\ UNCHANGED <<got, pc>>
         /\ UNCHANGED <<now, cur, front, fcancel, left, sig, calls>>

Worker == Expire \/ Begin \/ Finish \/ EndMain \/ Lock \/ Wake \/ Apply
User == \/ \E nm \in 1..NM, lim \in Lims : New(nm, lim)
        \/ \E k \in DOMAIN calls : Post(k) \/ Return(k) \/ CancelIt(k)
Next == Worker \/ User \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ \A k \in 1..K : WF_vars(k \in DOMAIN calls /\ Post(k))

Refines == [][DNext(K, NM, Lims)]_dvars
\* The worker never sleeps over something to do.
NoSleep == pc = "wait" /\ ~sig => main = <<>> /\ front = <<>> /\ fcancel = <<>>
Same == Cardinality(Range(main)) = Len(main) /\ \A k \in Range(main) : req[k].st = "pending"
Answered == \A k \in 1..K : (k \in DOMAIN calls ~> (k \in DOMAIN req /\ req[k].st = "answered"))
=============================================================================
