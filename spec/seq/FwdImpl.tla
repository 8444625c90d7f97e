------------------------------ MODULE FwdImpl ------------------------------
(* The algorithm of ForwardList at the level of pointers, checked to implement Lst.
   Nodes are 1..N, 0 is null; nx: links of the nodes (JUNK when not in a list); fst: first
   nodes; last: where the next appended item is to be linked: <<"n", node>> - the link of a
   node, <<"l", list>> - the first pointer of a list. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N
JUNK == 99
L2 == 1..2
VARIABLES nx, fst, last, ls
vars == <<nx, fst, last, ls>>
A == INSTANCE Lst
Own(l) == <<"l", l>>
Node(n) == <<"n", n>>
Init == nx = [n \in 1..N |-> JUNK] /\ fst = [l \in 1..3 |-> 0] /\ last = [l \in 1..3 |-> Own(l)] /\ A!LstInit
\* Write through a link.
PutN(f, k, v) == IF k[1] = "n" THEN [f EXCEPT ![k[2]] = v] ELSE f
PutF(f, k, v) == IF k[1] = "l" THEN [f EXCEPT ![k[2]] = v] ELSE f
Spoil(f, s) == [n \in DOMAIN f |-> IF \E i \in DOMAIN s : s[i] = n THEN JUNK ELSE f[n]]
AppendI(l, n) == /\ A!Free(n)
                 /\ nx' = PutN([nx EXCEPT ![n] = 0], last[l], n)
                 /\ fst' = PutF(fst, last[l], n)
                 /\ last' = [last EXCEPT ![l] = Node(n)]
                 /\ A!Append_(l, <<n>>)
\* A chain a -> b.
AppendC(l, a, b) == /\ a # b /\ A!Free(a) /\ A!Free(b)
                    /\ nx' = PutN([nx EXCEPT ![a] = b, ![b] = 0], last[l], a)
                    /\ fst' = PutF(fst, last[l], a)
                    /\ last' = [last EXCEPT ![l] = Node(b)]
                    /\ A!Append_(l, <<a, b>>)
PrependI(l, n) == /\ A!Free(n)
                  /\ nx' = [nx EXCEPT ![n] = fst[l]]
                  /\ last' = (IF fst[l] = 0 THEN [last EXCEPT ![l] = Node(n)] ELSE last)
                  /\ fst' = [fst EXCEPT ![l] = n]
                  /\ A!Prepend(l, <<n>>)
PrependC(l, a, b) == /\ a # b /\ A!Free(a) /\ A!Free(b)
                     /\ nx' = [nx EXCEPT ![a] = b, ![b] = fst[l]]
                     /\ last' = (IF fst[l] = 0 THEN [last EXCEPT ![l] = Node(b)] ELSE last)
                     /\ fst' = [fst EXCEPT ![l] = a]
                     /\ A!Prepend(l, <<a, b>>)
AppendL(l, o) == /\ l # o
                 /\ IF fst[o] = 0 THEN UNCHANGED <<nx, fst, last>>
                    ELSE /\ nx' = PutN(nx, last[l], fst[o])
                         /\ fst' = [PutF(fst, last[l], fst[o]) EXCEPT ![o] = 0]
                         /\ last' = [last EXCEPT ![l] = last[o], ![o] = Own(o)]
                 /\ A!AppendList(l, o)
PrependL(l, o) == /\ l # o
                  /\ IF fst[o] = 0 THEN UNCHANGED <<nx, fst, last>>
                     ELSE /\ nx' = [nx EXCEPT ![last[o][2]] = fst[l]]
                          /\ last' = [last EXCEPT ![l] = IF fst[l] = 0 THEN last[o] ELSE @, ![o] = Own(o)]
                          /\ fst' = [fst EXCEPT ![l] = fst[o], ![o] = 0]
                  /\ A!PrependList(l, o)
Insert(l, p, n) == /\ A!Free(n)
                   /\ IF p # 0 THEN /\ nx' = [nx EXCEPT ![n] = nx[p], ![p] = n]
                                    /\ last' = (IF nx[p] = 0 THEN [last EXCEPT ![l] = Node(n)] ELSE last)
                                    /\ UNCHANGED fst
                      ELSE /\ nx' = [nx EXCEPT ![n] = fst[l]]
                           /\ last' = (IF fst[l] = 0 THEN [last EXCEPT ![l] = Node(n)] ELSE last)
                           /\ fst' = [fst EXCEPT ![l] = n]
                   /\ A!Insert(l, n, p)
RECURSIVE Walk(_, _, _)
Walk(f, n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE IF n = JUNK THEN <<JUNK>> ELSE <<n>> \o Walk(f, f[n], k - 1)
RECURSIVE RevR(_, _, _, _)
\* item by item: prepend to the cleared list; result <<links, first, last>>
RevR(f, n, first, lst) ==
    IF n = 0 THEN <<f, first, lst>>
    ELSE RevR([f EXCEPT ![n] = first], f[n], n, IF first = 0 THEN Node(n) ELSE lst)
Reverse(l) == /\ LET r == RevR(nx, fst[l], 0, Own(l)) IN
                 nx' = r[1] /\ fst' = [fst EXCEPT ![l] = r[2]] /\ last' = [last EXCEPT ![l] = r[3]]
              /\ A!Reverse(l)
Clear(l) == /\ nx' = Spoil(nx, Walk(nx, fst[l], N + 1))
            /\ fst' = [fst EXCEPT ![l] = 0] /\ last' = [last EXCEPT ![l] = Own(l)]
            /\ A!Clear(l)
PopFirst(l) == /\ fst[l] # 0
               /\ fst' = [fst EXCEPT ![l] = nx[fst[l]]]
               /\ last' = (IF nx[fst[l]] = 0 THEN [last EXCEPT ![l] = Own(l)] ELSE last)
               /\ nx' = [nx EXCEPT ![fst[l]] = JUNK]
               /\ A!PopFirst(l, fst[l])
\* Move construction and assignment.
Move(l, o) == /\ l # o
              /\ nx' = Spoil(nx, Walk(nx, fst[l], N + 1))
              /\ fst' = [fst EXCEPT ![l] = fst[o], ![o] = 0]
              /\ last' = [last EXCEPT ![l] = IF fst[o] # 0 THEN last[o] ELSE Own(l), ![o] = Own(o)]
              /\ A!Move(l, o)
Next == \/ \E l \in L2, n \in 1..N : AppendI(l, n) \/ PrependI(l, n)
        \/ \E l \in L2, a, b \in 1..N : AppendC(l, a, b) \/ PrependC(l, a, b)
        \/ \E l, o \in L2 : AppendL(l, o) \/ PrependL(l, o) \/ Move(l, o)
        \/ \E l \in L2, n \in 1..N : \E p \in {0} \cup A!Range(ls[l]) : Insert(l, p, n)
        \/ \E l \in L2 : Reverse(l) \/ Clear(l) \/ PopFirst(l)
Spec == Init /\ [][Next]_vars
GetLast(l) == IF last[l] = Own(l) THEN 0 ELSE last[l][2]
Same == \A l \in L2 : /\ Walk(nx, fst[l], N + 1) = ls[l]
                      /\ GetLast(l) = (IF ls[l] = <<>> THEN 0 ELSE ls[l][Len(ls[l])])
                      /\ (last[l] = Own(l)) = (fst[l] = 0)
=============================================================================
