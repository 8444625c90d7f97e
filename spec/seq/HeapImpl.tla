------------------------------ MODULE HeapImpl ------------------------------
(* The algorithm of BinaryHeap (a min-heap of pointers with positions stored in the elements),
   checked to implement Heap. tree: sequence of elements; key; pos: stored positions (0-based
   in the code, here 1-based, 0 = absent). *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Elems, Keys
VARIABLES tree, key, pos, h, top
vars == <<tree, key, pos, h, top>>
A == INSTANCE Heap
Parent(i) == i \div 2
Left(i) == 2 * i
Le(k, a, b) == k[a] <= k[b]
RECURSIVE Up(_, _, _, _)
\* Element x goes up from place i (the hole); result: <<tree, pos>>
Up(t, p, k, i) ==
    IF i = 1 \/ Le(k, t[Parent(i)], t[i]) THEN <<t, p>>
    ELSE LET j == Parent(i)
             t2 == [t EXCEPT ![i] = t[j], ![j] = t[i]]
         IN Up(t2, [p EXCEPT ![t[j]] = i, ![t[i]] = j], k, j)
RECURSIVE Down(_, _, _, _)
Down(t, p, k, i) ==
    IF Left(i) > Len(t) THEN <<t, p>>
    ELSE LET l == Left(i)
             c == IF l + 1 > Len(t) \/ Le(k, t[l], t[l + 1]) THEN l ELSE l + 1
         IN IF Le(k, t[i], t[c]) THEN <<t, p>>
            ELSE Down([t EXCEPT ![i] = t[c], ![c] = t[i]], [p EXCEPT ![t[c]] = i, ![t[i]] = c], k, c)
Fix(t, p, k, i) == LET u == Up(t, p, k, i) IN IF u[1] # t THEN u ELSE Down(t, p, k, i)
Set(r) == tree' = r[1] /\ pos' = r[2]
Init == tree = <<>> /\ key = [e \in Elems |-> CHOOSE k \in Keys : \A j \in Keys : k <= j] /\ pos = [e \in Elems |-> 0]
        /\ A!HeapInit
TopNow == IF tree' = <<>> THEN 0 ELSE tree'[1]
Push(e, k) == /\ pos[e] = 0 /\ key' = [key EXCEPT ![e] = k]
              /\ Set(Up(Append(tree, e), [pos EXCEPT ![e] = Len(tree) + 1], key', Len(tree) + 1))
              /\ A!Push(e, k) /\ top' = TopNow
Update(e, k) == /\ pos[e] # 0 /\ key' = [key EXCEPT ![e] = k]
                /\ Set(Fix(tree, pos, key', pos[e])) /\ A!Update(e, k) /\ top' = TopNow
UpdateTop(k) == /\ tree # <<>> /\ key' = [key EXCEPT ![tree[1]] = k]
                /\ Set(Down(tree, pos, key', 1)) /\ A!Update(tree[1], k) /\ top' = TopNow
RemoveAt(i) == LET n == Len(tree) e == tree[i] IN
    IF i = n THEN tree' = SubSeq(tree, 1, n - 1) /\ pos' = [pos EXCEPT ![e] = 0]
    ELSE Set(Fix(SubSeq([tree EXCEPT ![i] = tree[n]], 1, n - 1), [pos EXCEPT ![e] = 0, ![tree[n]] = i], key, i))
Remove(e) == pos[e] # 0 /\ RemoveAt(pos[e]) /\ UNCHANGED key /\ A!Remove(e) /\ top' = TopNow
RemoveTop == tree # <<>> /\ RemoveAt(1) /\ UNCHANGED key /\ A!PopTop(tree[1], 1) /\ top' = TopNow
Next == \/ \E e \in Elems, k \in Keys : Push(e, k) \/ Update(e, k)
        \/ \E k \in Keys : UpdateTop(k)
        \/ \E e \in Elems : Remove(e)
        \/ RemoveTop
Spec == Init /\ [][Next]_vars
\* Refinement: what the algorithm shows is what the abstract queue allows.
Same == /\ DOMAIN h = {e \in Elems : pos[e] # 0} /\ \A e \in DOMAIN h : h[e] = key[e]
        /\ Len(tree) = Cardinality(DOMAIN h) /\ A!TopOf(FALSE, h, top)
Places == \A e \in Elems : IF pos[e] = 0 THEN \A i \in DOMAIN tree : tree[i] # e ELSE pos[e] \in DOMAIN tree /\ tree[pos[e]] = e
Order == \A i \in DOMAIN tree : i > 1 => Le(key, tree[Parent(i)], tree[i])
=============================================================================
