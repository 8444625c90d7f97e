------------------------------- MODULE PtrMC -------------------------------
(* The counting algorithm: counts change one at a time; an object dies when its count gets to
   zero. Slots of thread t: 2t-1, 2t. Checks that counting destroys as Ptr demands. *)
EXTENDS Ptr, TLC
CONSTANTS NT, NO, K
VARIABLES cnt, left, todo
\* todo[t]: decrements to do; cnt[o]
vars == <<ptrvars, cnt, left, todo>>
Th == 1..NT
My(t) == {2 * t - 1, 2 * t}
Init == /\ dead = {} /\ ops = {} /\ slot = [s \in 1..(2 * NT) |-> (s % NO) + 1]
        /\ cnt = [o \in 1..NO |-> Cardinality({s \in 1..(2 * NT) : (s % NO) + 1 = o})]
        /\ left = [t \in Th |-> K] /\ todo = [t \in Th |-> <<>>]
\* A call: first the increment, then the decrement.
Begin(t) == /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E op \in {"copy", "move", "clear"}, d \in My(t), s \in My(t) :
                  /\ Call(t, op, d, s)
                  /\ LET src == Val(s)  old == Val(d)
                         self == d = s \/ src = old IN
                     CASE op = "copy" /\ ~self -> /\ cnt' = (IF src = 0 THEN cnt ELSE [cnt EXCEPT ![src] = @ + 1])
                                                  /\ todo' = [todo EXCEPT ![t] = IF old = 0 THEN <<>> ELSE <<old>>]
                       [] op = "move" /\ d # s -> UNCHANGED cnt /\ todo' = [todo EXCEPT ![t] = IF old = 0 THEN <<>> ELSE <<old>>]
                       [] op = "clear" -> UNCHANGED cnt /\ todo' = [todo EXCEPT ![t] = IF old = 0 THEN <<>> ELSE <<old>>]
                       [] OTHER -> UNCHANGED <<cnt, todo>>
Dec(t) == /\ todo[t] # <<>>
          /\ LET o == Head(todo[t]) IN
             /\ cnt' = [cnt EXCEPT ![o] = @ - 1]
             /\ todo' = [todo EXCEPT ![t] = Tail(@)]
             /\ IF cnt[o] = 1 THEN dead' = dead \cup {o} /\ UNCHANGED <<slot, ops>> ELSE UNCHANGED ptrvars
          /\ UNCHANGED left
End(t) == /\ todo[t] = <<>> /\ \E c \in ops : c.h = t /\ ops' = ops \ {c} /\ UNCHANGED <<slot, dead>>
          /\ UNCHANGED <<cnt, left, todo>>
Next == \E t \in Th : Begin(t) \/ Dec(t) \/ End(t)
Spec == Init /\ [][Next]_vars
\* Whenever the algorithm ends a call, the specification allows the return.
MayReturn == \A c \in ops : todo[c.h] = <<>> => Clean(c)
\* Every destruction is allowed.
MayDie == [][\A o \in dead' \ dead : ~Held(slot, o) /\ \E c \in ops : o \in c.lim]_vars
=============================================================================
