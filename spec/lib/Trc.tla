-------------------------------- MODULE Trc --------------------------------
(* Common part of the trace specifications. A file of traces (one JSON object per line:
   cfg, ev = sequence of events) is given by the environment variable TRACE. Every trace is
   one initial state; TLC register i keeps the furthest position reached in trace i. A trace
   is accepted iff some behaviour of the specification consumes all of its events. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
\* Conditions are enforced only for the property being checked.
Aspect == IOEnv.ASPECT
Req(as, c) == (Aspect \in as \/ Aspect = "ALL") => c

VARIABLES tid, l
trcVars == <<tid, l>>

Tr == Traces[tid].ev
TCfg == Traces[tid].cfg
More == l <= Len(Tr)
Ev == Tr[l]
IsEv(e) == More /\ Tr[l].e = e
Consume == More /\ l' = l + 1 /\ UNCHANGED tid
Silent == UNCHANGED trcVars
TrcInit == tid \in 1..NT /\ l = 1

ASSUME \A i \in 1..NT : TLCSet(i, 0)

\* CONSTRAINT: notes the progress; stops exploring a trace already accepted.
Track == /\ IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TLCGet(tid) <= Len(Tr)
         /\ TRUE

\* POSTCONDITION
Report == /\ \A i \in 1..NT : TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJ", i, TLCGet(i)>>)
          /\ PrintT(<<"VALIDATED", NT>>)
=============================================================================
