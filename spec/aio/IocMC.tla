------------------------------- MODULE IocMC -------------------------------
\* Configurations of IocImpl.
EXTENDS IocImpl
CONSTANTS w1, w2, w3
T1 == {"t1"}
T2 == {"t1", "t2"}
ScrA == [c \in Caller |-> IF c = "c1" THEN {<<"wake", "t1">>, <<"close", "t1">>} ELSE {<<"wake", "t1">>}]
ScrB == [c \in Caller |-> {<<"wake", "t1">>, <<"close", "t2">>}]
ScrC == [c \in Caller |-> {<<"wake", "t1">>}]
Sym == Permutations(Worker)
=============================================================================
