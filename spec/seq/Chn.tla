-------------------------------- MODULE Chn --------------------------------
(* Lists of references to buffer chains, and direct owners of chains. ls: list -> runs which
   are still to be sent; own: chain -> runs ("gone" owners have <<>>). Chains are immutable. *)
EXTENDS Runs, Integers
VARIABLES ls, own, here
chnvars == <<ls, own, here>>
NL == 3
ChnInit == ls = [i \in 1..NL |-> <<>>] /\ own = <<>> /\ here = {}
Make(c, b) == c = Len(own) + 1 /\ own' = Append(own, b) /\ here' = here \cup {c} /\ UNCHANGED ls
RECURSIVE Cat(_)
Cat(cs) == IF cs = <<>> THEN <<>> ELSE (IF Head(cs) = 0 THEN <<>> ELSE own[Head(cs)]) \o Cat(Tail(cs))
Add(l, b) == ls' = [ls EXCEPT ![l] = @ \o b]
Ref(l, c, mv) == Add(l, own[c]) /\ here' = (IF mv = 1 THEN here \ {c} ELSE here) /\ UNCHANGED own
Splice(l, o) == ls' = [ls EXCEPT ![l] = @ \o ls[o], ![o] = <<>>] /\ UNCHANGED <<own, here>>
Skip(l, k) == k <= Bytes(ls[l]) /\ ls' = [ls EXCEPT ![l] = DropB(@, k)] /\ UNCHANGED <<own, here>>
Clear(l) == ls' = [ls EXCEPT ![l] = <<>>] /\ UNCHANGED <<own, here>>
Drop(c) == here' = here \ {c} /\ UNCHANGED <<own, ls>>
Keep == UNCHANGED chnvars
\* The runs r, in at most max vectors (n were used), are what can be sent of s now.
Gathered(s, r, n, max, full) ==
    LET t == Norm(s) k == Bytes(r) IN
    /\ n <= max /\ r = Norm(TakeB(t, k))
    /\ t # <<>> => k > 0
    /\ full = 1 => k = Bytes(t)
=============================================================================
