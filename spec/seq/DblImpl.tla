------------------------------ MODULE DblImpl ------------------------------
(* The algorithm of DoublyList at the level of pointers, checked to implement Lst.
   nx, pv: links of the nodes (0 = null, JUNK when not in a list); fst, lst: the ends. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N
JUNK == 99
L2 == 1..2
VARIABLES nx, pv, fst, lst, ls
vars == <<nx, pv, fst, lst, ls>>
A == INSTANCE Lst
Init == /\ nx = [n \in 1..N |-> JUNK] /\ pv = nx
        /\ fst = [l \in 1..3 |-> 0] /\ lst = fst /\ A!LstInit
Put(f, n, v) == IF n = 0 THEN f ELSE [f EXCEPT ![n] = v]
RECURSIVE Walk(_, _, _)
Walk(f, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE IF n = JUNK THEN <<JUNK>> ELSE <<n>> \o Walk(f, f[n], k - 1)
Spoil(f, s) == [n \in DOMAIN f |-> IF \E i \in DOMAIN s : s[i] = n THEN JUNK ELSE f[n]]
\* The chain a .. b (its inner links are in place) to the end / beginning of l.
AppendAB(f, p, l, a, b) ==
    /\ pv' = [p EXCEPT ![a] = lst[l]]
    /\ nx' = Put([f EXCEPT ![b] = 0], lst[l], a)
    /\ fst' = (IF lst[l] = 0 THEN [fst EXCEPT ![l] = a] ELSE fst)
    /\ lst' = [lst EXCEPT ![l] = b]
PrependAB(f, p, l, a, b) ==
    /\ pv' = Put([p EXCEPT ![a] = 0], fst[l], b)
    /\ nx' = [f EXCEPT ![b] = fst[l]]
    /\ lst' = (IF fst[l] = 0 THEN [lst EXCEPT ![l] = b] ELSE lst)
    /\ fst' = [fst EXCEPT ![l] = a]
AppendI(l, n) == A!Free(n) /\ AppendAB(nx, pv, l, n, n) /\ A!Append_(l, <<n>>)
PrependI(l, n) == A!Free(n) /\ PrependAB(nx, pv, l, n, n) /\ A!Prepend(l, <<n>>)
AppendC(l, a, b) == /\ a # b /\ A!Free(a) /\ A!Free(b)
                    /\ AppendAB([nx EXCEPT ![a] = b], [pv EXCEPT ![b] = a], l, a, b) /\ A!Append_(l, <<a, b>>)
PrependC(l, a, b) == /\ a # b /\ A!Free(a) /\ A!Free(b)
                     /\ PrependAB([nx EXCEPT ![a] = b], [pv EXCEPT ![b] = a], l, a, b) /\ A!Prepend(l, <<a, b>>)
AppendL(l, o) == /\ l # o
                 /\ IF fst[o] = 0 THEN UNCHANGED <<nx, pv, fst, lst>>
                    ELSE /\ pv' = [pv EXCEPT ![fst[o]] = lst[l]]
                         /\ nx' = Put(nx, lst[l], fst[o])
                         /\ fst' = [fst EXCEPT ![l] = IF lst[l] = 0 THEN fst[o] ELSE @, ![o] = 0]
                         /\ lst' = [lst EXCEPT ![l] = lst[o], ![o] = 0]
                 /\ A!AppendList(l, o)
PrependL(l, o) == /\ l # o
                  /\ IF fst[o] = 0 THEN UNCHANGED <<nx, pv, fst, lst>>
                     ELSE /\ nx' = [nx EXCEPT ![lst[o]] = fst[l]]
                          /\ pv' = Put(pv, fst[l], lst[o])
                          /\ lst' = [lst EXCEPT ![l] = IF fst[l] = 0 THEN lst[o] ELSE @, ![o] = 0]
                          /\ fst' = [fst EXCEPT ![l] = fst[o], ![o] = 0]
                  /\ A!PrependList(l, o)
Remove(l, n) == /\ n \in A!Range(ls[l])
                /\ nx' = [Put(nx, pv[n], nx[n]) EXCEPT ![n] = JUNK]
                /\ pv' = [Put(pv, nx[n], pv[n]) EXCEPT ![n] = JUNK]
                /\ lst' = (IF nx[n] = 0 THEN [lst EXCEPT ![l] = pv[n]] ELSE lst)
                /\ fst' = (IF pv[n] = 0 THEN [fst EXCEPT ![l] = nx[n]] ELSE fst)
                /\ A!Remove(l, n)
PopFirst(l) == /\ fst[l] # 0
               /\ LET x == fst[l] n == nx[fst[l]] IN
                  /\ fst' = [fst EXCEPT ![l] = n]
                  /\ pv' = [Put(pv, n, 0) EXCEPT ![x] = JUNK]
                  /\ lst' = (IF n = 0 THEN [lst EXCEPT ![l] = 0] ELSE lst)
                  /\ nx' = [nx EXCEPT ![x] = JUNK]
               /\ A!PopFirst(l, fst[l])
PopLast(l) == /\ fst[l] # 0
              /\ LET x == lst[l] p == pv[lst[l]] IN
                 /\ lst' = [lst EXCEPT ![l] = p]
                 /\ nx' = [Put(nx, p, 0) EXCEPT ![x] = JUNK]
                 /\ fst' = (IF p = 0 THEN [fst EXCEPT ![l] = 0] ELSE fst)
                 /\ pv' = [pv EXCEPT ![x] = JUNK]
              /\ A!PopLast(l, lst[l])
RECURSIVE RevR(_, _, _, _, _)
RevR(f, p, n, first, last) ==
    IF n = 0 THEN <<f, p, first, last>>
    ELSE RevR([f EXCEPT ![n] = first], Put([p EXCEPT ![n] = 0], first, n), f[n], n, IF first = 0 THEN n ELSE last)
Reverse(l) == /\ LET r == RevR(nx, pv, fst[l], 0, 0) IN
                 nx' = r[1] /\ pv' = r[2] /\ fst' = [fst EXCEPT ![l] = r[3]] /\ lst' = [lst EXCEPT ![l] = r[4]]
              /\ A!Reverse(l)
Clear(l) == /\ LET w == Walk(nx, fst[l], N + 1) IN nx' = Spoil(nx, w) /\ pv' = Spoil(pv, w)
            /\ fst' = [fst EXCEPT ![l] = 0] /\ lst' = [lst EXCEPT ![l] = 0] /\ A!Clear(l)
Move(l, o) == /\ l # o
              /\ LET w == Walk(nx, fst[l], N + 1) IN nx' = Spoil(nx, w) /\ pv' = Spoil(pv, w)
              /\ fst' = [fst EXCEPT ![l] = fst[o], ![o] = 0]
              /\ lst' = [lst EXCEPT ![l] = lst[o], ![o] = 0] /\ A!Move(l, o)
Next == \/ \E l \in L2, n \in 1..N : AppendI(l, n) \/ PrependI(l, n) \/ Remove(l, n)
        \/ \E l \in L2, a, b \in 1..N : AppendC(l, a, b) \/ PrependC(l, a, b)
        \/ \E l, o \in L2 : AppendL(l, o) \/ PrependL(l, o) \/ Move(l, o)
        \/ \E l \in L2 : Reverse(l) \/ Clear(l) \/ PopFirst(l) \/ PopLast(l)
Spec == Init /\ [][Next]_vars
Same == \A l \in L2 : /\ Walk(nx, fst[l], N + 1) = ls[l] /\ Walk(pv, lst[l], N + 1) = A!Rev(ls[l])
=============================================================================
