------------------------------- MODULE McqMC -------------------------------
(* Exhaustive exploration of Mcq: one producer (thread 0), consumers 1..NC. *)
EXTENDS Mcq, TLC
CONSTANTS S, NC, NI
VARIABLES next, popped
vars == <<mvars, next, popped>>
Init == McqInit /\ next = 1 /\ popped = <<>>
Prod == /\ \A o \in ops : o.h # 0
        /\ \/ \E op \in {"push", "pend"} : next <= NI /\ Call(0, op, next) /\ next' = next + 1
           \/ Call(0, "flush", 0) /\ pend # <<>> /\ UNCHANGED next
        /\ UNCHANGED <<vis, pend, w, cnt, maxo, popped>>
Cons == \E h \in 1..NC : /\ \A o \in ops : o.h # h
                         /\ Call(h, "pop", 0) /\ UNCHANGED <<vis, pend, w, cnt, maxo, next, popped>>
Lins == \E o \in ops : /\ Lin(o, S) /\ UNCHANGED next
                       /\ popped' = IF o.op = "pop" /\ o.ph = 0 /\ vis # <<>> THEN Append(popped, Head(vis)) ELSE popped
Rets == \E o \in ops : Ret(o) /\ UNCHANGED <<vis, pend, w, cnt, maxo, next, popped>>
Next == Prod \/ Cons \/ Lins \/ Rets
Spec == Init /\ [][Next]_vars
\* Everything comes out once and in the order of pushing.
Fifo == \A i \in 1..Len(popped) : popped[i] = i
Conserved == LET busy == {o \in ops : o.op \in {"push", "pend"} /\ o.ph # 9}
             IN Len(popped) + Len(vis) + Len(pend) + 1 + Cardinality(busy) >= next
\* Nothing pending gets visible but by a flush, a push or a full block.
Hidden == [][ (vis' # vis /\ Len(vis') > Len(vis)) => \E o \in ops : o.h = 0 /\ (o.op # "pend" \/ w = S) ]_vars
\* cnt = visible + announced and not yet visible + popped and not yet counted.
CntExact == LET ann == {o \in ops : o.h = 0 /\ o.ph \in {1, 2}}
                po == {o \in ops : o.op = "pop" /\ o.ph = 1}
                extra == IF ann = {} THEN 0 ELSE LET o == CHOOSE a \in ann : TRUE IN
                           (IF o.ph = 1 THEN Len(pend) ELSE 0) + (IF o.op = "push" THEN 1 ELSE 0)
            IN cnt = Len(vis) + extra + Cardinality(po)
=============================================================================
