--------------------------------- MODULE Lst ---------------------------------
(* Lists as sequences. ls: list -> sequence of elements; an element is in one list at most. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLE ls
NL == 3
LstInit == ls = [i \in 1..NL |-> <<>>]
Range(s) == {s[i] : i \in DOMAIN s}
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Free(x) == \A i \in 1..NL : x \notin Range(ls[i])
Without(s, xs) == SelectSeq(s, LAMBDA y : y \notin xs)
Append_(l, xs) == (\A i \in DOMAIN xs : Free(xs[i])) /\ ls' = [ls EXCEPT ![l] = @ \o xs]
Prepend(l, xs) == (\A i \in DOMAIN xs : Free(xs[i])) /\ ls' = [ls EXCEPT ![l] = xs \o @]
AppendList(l, o) == l # o /\ ls' = [ls EXCEPT ![l] = @ \o ls[o], ![o] = <<>>]
PrependList(l, o) == l # o /\ ls' = [ls EXCEPT ![l] = ls[o] \o @, ![o] = <<>>]
\* After p, or in the beginning if p = 0.
Insert(l, x, p) ==
    /\ Free(x) /\ (p # 0 => p \in Range(ls[l]))
    /\ LET s == ls[l]
           k == IF p = 0 THEN 0 ELSE CHOOSE i \in DOMAIN s : s[i] = p
       IN ls' = [ls EXCEPT ![l] = SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))]
Remove(l, x) == x \in Range(ls[l]) /\ ls' = [ls EXCEPT ![l] = Without(@, {x})]
Reverse(l) == ls' = [ls EXCEPT ![l] = Rev(@)]
Clear(l) == ls' = [ls EXCEPT ![l] = <<>>]
PopFirst(l, x) == ls[l] # <<>> /\ x = Head(ls[l]) /\ ls' = [ls EXCEPT ![l] = Tail(@)]
PopLast(l, x) == ls[l] # <<>> /\ x = ls[l][Len(ls[l])] /\ ls' = [ls EXCEPT ![l] = SubSeq(@, 1, Len(@) - 1)]
\* The content of o replaces that of l.
Move(l, o) == l # o /\ ls' = [ls EXCEPT ![l] = ls[o], ![o] = <<>>]
\* The elements xs of l go to the end of o, in their order.
Select(l, o, xs) == /\ l # o /\ Range(xs) \subseteq Range(ls[l])
                    /\ xs = SelectSeq(ls[l], LAMBDA y : y \in Range(xs))
                    /\ ls' = [ls EXCEPT ![l] = Without(@, Range(xs)), ![o] = @ \o xs]
\* What a list shows of itself.
Shows(l, s, f, z, em) ==
    LET q == ls'[l] IN /\ s = q
                       /\ f = (IF q = <<>> THEN 0 ELSE q[1])
                       /\ z = (IF q = <<>> THEN 0 ELSE q[Len(q)])
                       /\ em = (IF q = <<>> THEN 1 ELSE 0)
=============================================================================
