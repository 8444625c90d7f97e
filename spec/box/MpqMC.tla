------------------------------- MODULE MpqMC -------------------------------
(* Exhaustive: producers 1..NP push items <<p, i>>; the consumer 0 pops. *)
EXTENDS Mpq, TLC
CONSTANTS NP, NI
VARIABLES nxt, out, fresh
\* fresh: how many pushes reported "was empty" since the last pop took effect
vars == <<qvars, nxt, out, fresh>>
Init == MpqInit /\ nxt = [p \in 1..NP |-> 1] /\ out = <<>> /\ fresh = 0
Items(p, n) == [i \in 1..n |-> <<p, nxt[p] + i - 1>>]
Prod == \E p \in 1..NP, n \in 1..2 :
           /\ nxt[p] + n - 1 <= NI
           /\ Call(p, IF n = 1 THEN "push" ELSE "many", Items(p, n))
           /\ nxt' = [nxt EXCEPT ![p] = @ + n] /\ UNCHANGED <<stk, out, fresh>>
Cons == Call(0, "pop", <<>>) /\ UNCHANGED <<stk, nxt, out, fresh>>
Lins == \E o \in ops : /\ Lin(o) /\ UNCHANGED nxt
          /\ out' = (IF o.op = "pop" THEN out \o Rev(stk) ELSE out)
          /\ fresh' = (IF o.op = "pop" THEN 0 ELSE IF stk = <<>> THEN fresh + 1 ELSE fresh)
Rets == \E o \in ops : Ret(o) /\ UNCHANGED <<stk, nxt, out, fresh>>
Next == Prod \/ Cons \/ Lins \/ Rets
Spec == Init /\ [][Next]_vars
all == out \o Rev(stk)
Once == \A i, j \in 1..Len(all) : all[i] = all[j] => i = j
Ordered == \A i, j \in 1..Len(all) : i < j /\ all[i][1] = all[j][1] => all[i][2] < all[j][2]
OneNotifier == fresh = (IF stk = <<>> THEN 0 ELSE 1)
=============================================================================
