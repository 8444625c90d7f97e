----------------------------- MODULE SchedImplMC -----------------------------
(* The scripts of the configurations of SchedImpl. *)
EXTENDS SchedImpl
CONSTANTS w1, w2, w3
\* Wakeups and signals against deadlines.
ScrA == [c \in Caller |-> CASE c = "a" -> <<<<"post", 1, 1>>, <<"wake", 1>>>>
                            [] c = "b" -> <<<<"sig", 1>>>>]
\* Draining.
ScrB == [c \in Caller |-> CASE c = "a" -> <<<<"post", 1, 0>>, <<"empty">>>>
                            [] c = "b" -> <<<<"wake", 1>>>>]
\* Stopping and starting again with tasks of every kind.
ScrC == [c \in Caller |-> CASE c = "a" -> <<<<"stop">>, <<"start">>>>
                            [] c = "b" -> <<<<"post", 1, INF>>, <<"wake", 1>>>>]
\* Order.
ScrD == [c \in Caller |-> CASE c = "a" -> <<<<"post", 1, 0>>, <<"post", 2, 0>>, <<"post", 3, 0>>>>
                            [] c = "b" -> <<>>]
\* Two tasks with deadlines and a wakeup.
ScrE == [c \in Caller |-> CASE c = "a" -> <<<<"post", 1, 1>>, <<"post", 2, 2>>>>
                            [] c = "b" -> <<<<"wake", 2>>>>]
\* The same for the thorough check.
ScrF == [c \in Caller |-> CASE c = "a" -> <<<<"post", 1, 1>>, <<"wake", 1>>, <<"stop">>, <<"start">>>>
                            [] c = "b" -> <<<<"post", 2, INF>>, <<"sig", 2>>, <<"sig", 1>>>>]
ScrG == [c \in Caller |-> CASE c = "a" -> <<<<"post", 1, 0>>, <<"empty">>, <<"stop">>>>
                            [] c = "b" -> <<<<"post", 2, 1>>, <<"empty">>>>]
=============================================================================
