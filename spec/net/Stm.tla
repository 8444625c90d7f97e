-------------------------------- MODULE Stm --------------------------------
(* Pairs of encrypted streams. Sides are <<pair, 1 = client or 2 = server>>. A stream is new
   (everything in clear), connecting, connected, closing or closed. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
    rank,    \* side -> 0..4: new, connecting, connected, closing, closed
    err,     \* side -> has an error
    acc,     \* side -> application bytes accepted
    due,     \* side -> ... which must arrive
    del,     \* side -> bytes of the other side delivered
    clr,     \* side -> new: bytes taken for the network; later: all bytes sent in clear
    fed,     \* side -> bytes fed before it was connected
    stop,    \* side -> shut down by its user: -1 no, otherwise its rank at that moment
    dam,     \* pair -> the wire was damaged
    sure,    \* side -> a complete record for it was damaged
    drop     \* side -> its data in clear was dropped by a shutdown
svars == <<rank, err, acc, due, del, clr, fed, stop, dam, sure, drop>>

Sides(P) == (1..P) \X {1, 2}
Other(s) == <<s[1], 3 - s[2]>>

SInit(P) ==
    /\ rank = [s \in Sides(P) |-> 0] /\ err = [s \in Sides(P) |-> FALSE]
    /\ acc = [s \in Sides(P) |-> 0] /\ due = [s \in Sides(P) |-> 0] /\ del = [s \in Sides(P) |-> 0]
    /\ clr = [s \in Sides(P) |-> 0] /\ fed = [s \in Sides(P) |-> 0]
    /\ stop = [s \in Sides(P) |-> -1] /\ dam = [p \in 1..P |-> FALSE] /\ sure = [s \in Sides(P) |-> FALSE]
    /\ drop = [s \in Sides(P) |-> FALSE]

\* What the two ends agree on: the highest common version, 0 = none. c is the pair's configuration.
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Common(c) == LET v == Min(c.hi1, c.hi2) IN IF v >= Max(c.lo1, c.lo2) THEN v ELSE 0
CanAgree(c) == Common(c) # 0 /\ c.bad = 0

\* How the state of side s may change by any call on it. act: the call is Connect or Shutdown.
MayRank(c, s, r, act) ==
    LET o == Other(s) IN
    /\ r >= rank[s]
    /\ rank[s] = 0 /\ r > 0 => act \in {"cn", "sh"}
    \* The handshake needs both.
    /\ rank[s] < 2 /\ r = 2 => CanAgree(c) /\ rank[o] >= 1 /\ fed[s] > 0
    \* The end: asked here or there, or an error.
    /\ rank[s] < 3 /\ r >= 3 => \/ stop[s] # -1 \/ act = "sh"
                                \/ rank[o] >= 3
                                \/ dam[s[1]] \/ ~CanAgree(c)
MayErr(c, s, act) ==
    \/ dam[s[1]] \/ ~CanAgree(c)
    \* A handshake given up.
    \/ (stop[s] \in {0, 1} \/ (act = "sh" /\ rank[s] = 1))
    \/ stop[Other(s)] \in {0, 1}
    \* Application data which comes when the side does not want any more.
    \/ (stop[s] # -1 /\ acc[Other(s)] > del[s])
\* All bytes were carried in both directions, nothing happens any more.
Quiet(c, p, w1, w2) ==
    LET a == <<p, 1>>
        b == <<p, 2>>
        both == rank[a] >= 1 /\ rank[b] >= 1
        calm == ~dam[p] /\ stop[a] = -1 /\ stop[b] = -1
    IN
    /\ w1 = 0 \/ rank[b] = 0 \/ rank[b] >= 3
    /\ w2 = 0 \/ rank[a] = 0 \/ rank[a] >= 3
    /\ calm /\ both /\ CanAgree(c) =>
          rank[a] = 2 /\ rank[b] = 2 /\ del[b] = acc[a] /\ del[a] = acc[b]
    \* Encryption is not possible: both know (one has told the other).
    /\ calm /\ both /\ ~CanAgree(c) => /\ rank[a] >= 3 /\ rank[b] >= 3 /\ err[a] /\ err[b]
                                       /\ del[a] <= clr[b] /\ del[b] <= clr[a]
    /\ calm /\ rank[a] = 0 /\ rank[b] = 0 => del[b] = acc[a] /\ del[a] = acc[b]
    \* A shutdown of a connected side.
    /\ \A s \in {a, b} : ~dam[p] /\ stop[s] = 2 /\ stop[Other(s)] = -1 =>
          rank[Other(s)] >= 3 /\ del[Other(s)] >= due[s]
    /\ \A s \in {a, b} : ~dam[p] /\ stop[s] = 2 /\ stop[Other(s)] = -1 /\ acc[Other(s)] = del[s] =>
          rank[s] = 4 /\ rank[Other(s)] = 4 /\ ~err[s] /\ ~err[Other(s)]
    \* Damage does not go unnoticed.
    /\ \A s \in {a, b} : sure[s] /\ stop[s] = -1 /\ stop[Other(s)] = -1 => err[s]
=============================================================================
