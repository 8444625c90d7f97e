-------------------------------- MODULE Pool --------------------------------
(* The thread-local pool as its users see it: memory handed out and taken back. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES live, held
\* live: addresses in use. held: every address ever handed out.
pvars == <<live, held>>
PoolInit == live = {} /\ held = {}
Alloc(a, sz) == /\ \A b \in live : b + sz <= a \/ a + sz <= b
                /\ live' = live \cup {a} /\ held' = held \cup {a}
Free(a) == a \in live /\ live' = live \ {a} /\ UNCHANGED held
=============================================================================
