-------------------------------- MODULE Ptr --------------------------------
(* Intrusive shared pointers. Slots hold objects; an object must be destroyed by the call which
   drops its last reference. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES slot, dead, ops
\* slot: function of slot -> object (absent = empty); dead: destroyed objects;
\* ops: [h, op, d, lim] - calls under way, lim = objects which the call has dropped
ptrvars == <<slot, dead, ops>>
LINK == 100
KID == 200
PtrInit == slot = <<>> /\ dead = {} /\ ops = {}
Has(s) == s \in DOMAIN slot
Val(s) == IF Has(s) THEN slot[s] ELSE 0
Put(f, s, o) == IF o = 0 THEN [x \in DOMAIN f \ {s} |-> f[x]]
                ELSE [x \in DOMAIN f \cup {s} |-> IF x = s THEN o ELSE f[x]]
Held(f, o) == \E s \in DOMAIN f : f[s] = o
Drop(o) == IF o = 0 THEN {} ELSE {o}
\* The call takes effect for the slots at once; the objects die later, until the return.
Call(h, op, d, s) ==
    /\ \A o \in ops : o.h # h
    /\ CASE op = "copy" -> /\ slot' = Put(slot, d, Val(s))
                           /\ ops' = ops \cup {[h |-> h, op |-> op, d |-> d, s |-> s, lim |-> Drop(Val(d))]}
         [] op = "move" -> /\ slot' = (IF d = s THEN slot ELSE Put(Put(slot, d, Val(s)), s, 0))
                           /\ ops' = ops \cup {[h |-> h, op |-> op, d |-> d, s |-> s, lim |-> Drop(Val(d))]}
         [] op = "clear" -> /\ slot' = Put(slot, d, 0)
                            /\ ops' = ops \cup {[h |-> h, op |-> op, d |-> d, s |-> s, lim |-> Drop(Val(d))]}
         [] OTHER -> UNCHANGED slot /\ ops' = ops \cup {[h |-> h, op |-> op, d |-> d, s |-> s, lim |-> {}]}
    /\ UNCHANGED dead
New(o) ==
    \E c \in ops : /\ c.op = "new" /\ ~Held(slot, o) /\ o \notin dead
                   /\ slot' = Put(slot, c.d, o)
                   /\ ops' = (ops \ {c}) \cup {[c EXCEPT !.op = "made", !.lim = @ \cup Drop(Val(c.d))]}
                   /\ UNCHANGED dead
\* The destruction: the links of the object are dropped by the same call.
Die(o, h) ==
    \E c \in ops : /\ c.h = h /\ o \in c.lim /\ o \notin dead /\ ~Held(slot, o)
                   /\ dead' = dead \cup {o}
                   /\ slot' = Put(Put(slot, LINK + o, 0), KID + o, 0)
                   /\ ops' = (ops \ {c}) \cup {[c EXCEPT !.lim = @ \cup Drop(Val(LINK + o)) \cup Drop(Val(KID + o))]}
\* What was dropped and is not held by anybody is destroyed before the return.
Clean(c) == \A o \in c.lim : o \in dead \/ Held(slot, o) \/ \E x \in ops \ {c} : o \in x.lim
B(c) == IF c THEN 1 ELSE 0
Result(c) == CASE c.op = "eq" -> IF Val(c.d) = Val(c.s) THEN 31 ELSE 0
               [] c.op = "null" -> IF Val(c.d) = 0 THEN 15 ELSE 0
               [] OTHER -> Val(c.d)
Ret(c) == c \in ops /\ c.op # "new" /\ Clean(c) /\ ops' = ops \ {c} /\ UNCHANGED <<slot, dead>>
Alive == \A s \in DOMAIN slot : slot[s] \notin dead
=============================================================================
