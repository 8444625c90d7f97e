-------------------------------- MODULE Mcq --------------------------------
(* The multi-producer-less, multi-consumer queue: one producer, any number of consumers,
   items stored in blocks of S slots. Each call takes effect in one or two atomic steps: the
   reported count changes separately from the visibility of the items. *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    vis,   \* visible items, oldest first
    pend,  \* pushed as pending, not visible yet
    w,     \* used slots of the block being written
    cnt,   \* the reported count
    maxo,  \* the most items ever held (visible or pending)
    ops    \* calls under way: [h, op, x, ph, v]; ph = 0, 1, 2 or 9 = done

mvars == <<vis, pend, w, cnt, maxo, ops>>

McqInit == vis = <<>> /\ pend = <<>> /\ w = 0 /\ cnt = 0 /\ maxo = 0 /\ ops = {}

Call(h, op, x) == /\ \A o \in ops : o.h # h
                  /\ ops' = ops \cup {[h |-> h, op |-> op, x |-> x, ph |-> 0, v |-> 0]}
Step(o, ph, v) == ops' = (ops \ {o}) \cup {[o EXCEPT !.ph = ph, !.v = v]}
B(c) == IF c THEN 1 ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
Note(v, p) == maxo' = Max(maxo, Len(v) + Len(p))

PushLin(o, S) ==
    /\ o.op = "push"
    /\ \/ /\ o.ph = 0
          /\ cnt' = cnt + Len(pend) + 1
          /\ Step(o, 1, B(cnt = 0))
          /\ UNCHANGED <<vis, pend, w, maxo>>
       \/ /\ o.ph = 1 /\ w < S
          /\ vis' = vis \o pend \o <<o.x>> /\ pend' = <<>> /\ w' = w + 1
          /\ Step(o, 9, o.v) /\ Note(vis', pend') /\ UNCHANGED cnt
       \/ /\ o.ph = 1 /\ w = S
          /\ vis' = vis \o pend /\ pend' = <<>>
          /\ Step(o, 2, o.v) /\ UNCHANGED <<w, cnt, maxo>>
       \/ /\ o.ph = 2
          /\ vis' = Append(vis, o.x) /\ w' = 1
          /\ Step(o, 9, o.v) /\ Note(vis', pend) /\ UNCHANGED <<pend, cnt>>
PendLin(o, S) ==
    /\ o.op = "pend"
    /\ \/ /\ o.ph = 0 /\ w < S
          /\ pend' = Append(pend, o.x) /\ w' = w + 1
          /\ Step(o, 9, 0) /\ Note(vis, pend') /\ UNCHANGED <<vis, cnt>>
       \/ /\ o.ph = 0 /\ w = S   \* the full block is published
          /\ cnt' = cnt + Len(pend)
          /\ Step(o, 1, B(pend # <<>> /\ cnt = 0))
          /\ UNCHANGED <<vis, pend, w, maxo>>
       \/ /\ o.ph = 1
          /\ vis' = vis \o pend /\ pend' = <<o.x>> /\ w' = 1
          /\ Step(o, 9, o.v) /\ Note(vis', pend') /\ UNCHANGED cnt
FlushLin(o) ==
    /\ o.op = "flush"
    /\ \/ /\ o.ph = 0 /\ pend = <<>>
          /\ Step(o, 9, 0) /\ UNCHANGED <<vis, pend, w, cnt, maxo>>
       \/ /\ o.ph = 0 /\ pend # <<>>
          /\ cnt' = cnt + Len(pend)
          /\ Step(o, 1, B(cnt = 0)) /\ UNCHANGED <<vis, pend, w, maxo>>
       \/ /\ o.ph = 1
          /\ vis' = vis \o pend /\ pend' = <<>>
          /\ Step(o, 9, o.v) /\ UNCHANGED <<w, cnt, maxo>>
PopLin(o) ==
    /\ o.op = "pop"
    /\ \/ /\ o.ph = 0 /\ vis = <<>>
          /\ Step(o, 9, 0) /\ UNCHANGED <<vis, pend, w, cnt, maxo>>
       \/ /\ o.ph = 0 /\ vis # <<>>
          /\ vis' = Tail(vis)
          /\ Step(o, 1, Head(vis)) /\ UNCHANGED <<pend, w, cnt, maxo>>
       \/ /\ o.ph = 1
          /\ cnt' = cnt - 1
          /\ Step(o, 9, o.v) /\ UNCHANGED <<vis, pend, w, maxo>>
CountLin(o) ==
    /\ o.op = "count" /\ o.ph = 0
    /\ Step(o, 9, cnt) /\ UNCHANGED <<vis, pend, w, cnt, maxo>>
Lin(o, S) == PushLin(o, S) \/ PendLin(o, S) \/ FlushLin(o) \/ PopLin(o) \/ CountLin(o)

Ret(o) == /\ o \in ops /\ o.ph = 9
          /\ ops' = ops \ {o}

\* Blocks which may have to exist with C consumers: the one being written, one for each
\* consumer, those with unread items, and the reserved ones.
BlockBound(S, C, R) == LET x == 3 + C + maxo \div S IN Max(x, R)
----------------------------------------------------------------------------
\* The count covers everything visible and every pop in progress.
CountOK == cnt >= Len(vis)
Distinct == \A i, j \in 1..Len(vis) : vis[i] = vis[j] => i = j
=============================================================================
