------------------------------- MODULE PoolMC -------------------------------
(* The algorithm: every thread has at most one chain of up to B objects (plus the object which
   is the head of the chain); the others are in the global list of chains. Checked to refine
   Pool and to keep the bound of the held memory which is used for the code. *)
EXTENDS Pool, TLC
CONSTANTS B, NT, MAX, LIVE
VARIABLES loc, glob, total
\* loc[t]: sequence of free objects of t's chain, the head last (<<>> = no chain)
vars == <<live, held, loc, glob, total>>
Th == 1..NT
Init == PoolInit /\ loc = [t \in Th |-> <<>>] /\ glob = <<>> /\ total = 0
\* Step 1 of an allocation, if the thread has no chain.
Refill(t) == /\ loc[t] = <<>> /\ Cardinality(live) < LIVE
             /\ IF glob # <<>>
                THEN loc' = [loc EXCEPT ![t] = Head(glob)] /\ glob' = Tail(glob) /\ UNCHANGED total
                ELSE /\ total + B + 1 <= MAX
                     /\ loc' = [loc EXCEPT ![t] = [i \in 1..(B + 1) |-> total + i]]
                     /\ total' = total + B + 1 /\ UNCHANGED glob
             /\ UNCHANGED pvars
Take(t) == /\ loc[t] # <<>> /\ Cardinality(live) < LIVE
           /\ Alloc(Head(loc[t]), 1) /\ loc' = [loc EXCEPT ![t] = Tail(@)]
           /\ UNCHANGED <<glob, total>>
Give(t) == \E a \in live :
           /\ Free(a)
           /\ IF Len(loc[t]) = B + 1
              THEN glob' = <<loc[t]>> \o glob /\ loc' = [loc EXCEPT ![t] = <<a>>]
              ELSE loc' = [loc EXCEPT ![t] = <<a>> \o @] /\ UNCHANGED glob
           /\ UNCHANGED total
Exit(t) == /\ loc[t] # <<>> /\ glob' = <<loc[t]>> \o glob /\ loc' = [loc EXCEPT ![t] = <<>>] /\ UNCHANGED <<pvars, total>>
Next == \E t \in Th : Refill(t) \/ Take(t) \/ Give(t) \/ Exit(t)
Spec == Init /\ [][Next]_vars
Refines == [][ \/ live' = live /\ held' = held
               \/ \E a \in 1..MAX : Alloc(a, 1) \/ Free(a) ]_pvars
Range(s) == {s[i] : i \in 1..Len(s)}
Free_ == UNION {Range(loc[t]) : t \in Th} \cup UNION {Range(glob[i]) : i \in 1..Len(glob)}
Disjoint == Free_ \cap live = {} /\ Free_ \cup live = 1..total
\* The bound: live objects and a chain for each thread.
Bound == total <= LIVE + NT * (B + 1)
=============================================================================
