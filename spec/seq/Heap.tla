-------------------------------- MODULE Heap --------------------------------
(* Priority queue: the elements which were pushed and not removed, with their keys. *)
EXTENDS Naturals, Integers, FiniteSets
VARIABLES h, top
\* h: element -> key; top: what the queue last showed as its top, 0 if nothing
heapvars == <<h, top>>
\* max: TRUE for max-heaps
Above(max, a, b) == IF max THEN a >= b ELSE a <= b
HeapInit == h = <<>> /\ top = 0
Tops(max, f) == {x \in DOMAIN f : \A y \in DOMAIN f : Above(max, f[x], f[y])}
TopOf(max, f, t) == IF DOMAIN f = {} THEN t = 0 ELSE t \in Tops(max, f)
Without(x) == [y \in DOMAIN h \ {x} |-> h[y]]
Push(x, k) == x \notin DOMAIN h /\ h' = [y \in DOMAIN h \cup {x} |-> IF y = x THEN k ELSE h[y]]
Update(x, k) == x \in DOMAIN h /\ h' = [h EXCEPT ![x] = k]
Remove(x) == x \in DOMAIN h /\ h' = Without(x)
\* The top shown at this moment leaves; r tells whether there was one.
PopTop(x, r) == /\ x = top
                /\ IF top = 0 THEN r = 0 /\ UNCHANGED h ELSE r = 1 /\ h' = Without(x)
\* What can be observed after every operation.
Shown(max, n, t) == n = Cardinality(DOMAIN h') /\ TopOf(max, h', t) /\ top' = t
\* Positions known by the elements of an intrusive heap (ix: sequence over all elements).
Positions(ix) ==
    /\ \A x \in DOMAIN ix : IF x \in DOMAIN h' THEN ix[x] >= 0 /\ ix[x] < Cardinality(DOMAIN h') ELSE ix[x] = -1
    /\ \A x, y \in DOMAIN ix : x \in DOMAIN h' /\ y \in DOMAIN h' /\ x # y => ix[x] # ix[y]
    /\ top' # 0 => ix[top'] = 0
=============================================================================
