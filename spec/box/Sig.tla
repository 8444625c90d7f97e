-------------------------------- MODULE Sig --------------------------------
(* mg::box::Signal. A send is two steps: it is announced (probe), then set; while one is
   announced, another send has nothing to do. A receive takes a set signal. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES sg, ops, now, alive
svars == <<sg, ops, now, alive>>
SigInit == sg = "empty" /\ ops = {} /\ now = 0 /\ alive = TRUE
B(c) == IF c THEN 1 ELSE 0
INF == 1000000000
\* op: "send" | "recv" (does not wait) | "block" | "timed"; lim: the moment when it may give up
Call(h, op, lim) == /\ alive /\ \A o \in ops : o.h # h
                    /\ ops' = ops \cup {[h |-> h, op |-> op, ph |-> 0, v |-> 0, lim |-> lim, st |-> FALSE]}
Step(o, ph, v) == ops' = (ops \ {o}) \cup {[o EXCEPT !.ph = ph, !.v = v]}
Lin(o) ==
    \/ /\ o.op = "send" /\ o.ph = 0
       /\ IF sg = "empty" THEN sg' = "probe" /\ Step(o, 1, 0) ELSE UNCHANGED sg /\ Step(o, 9, 0)
    \/ /\ o.op = "send" /\ o.ph = 1
       /\ sg' = "set" /\ Step(o, 9, 0)
    \/ /\ o.op # "send" /\ o.ph = 0 /\ sg = "set"
       \* The other receivers may be woken up in vain.
       /\ sg' = "empty"
       /\ ops' = {IF p = o THEN [p EXCEPT !.ph = 9, !.v = 1] ELSE [p EXCEPT !.st = @ \/ p.op = "timed"] : p \in ops}
    \/ /\ o.op \in {"recv", "timed"} /\ o.ph = 0 /\ sg # "set"
       /\ UNCHANGED sg /\ Step(o, 9, 0)
Ret(o) == o \in ops /\ o.ph = 9 /\ ops' = ops \ {o}
\* Nobody waits for a signal which is there.
Quiet == sg = "set" => \A o \in ops : o.op \in {"block", "timed"} => o.ph = 9
=============================================================================
