------------------------------ MODULE CorImpl ------------------------------
(* The links between coroutine frames as src/mg/box/Coro.cpp maintains them (myNext, myPrev,
   myFirst, myLast), together with the stacks of module Cor they implement. NR references own
   the bottom frames. Every operation checks that it touches only existing frames. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS F, NR   \* number of frames ever created, number of references

VARIABLES
    nx, pv, first, lst,   \* frame -> frame or 0
    live,                 \* frames which exist
    dead,                 \* the order in which frames were destroyed by the last operation
    ref,                  \* reference -> bottom frame or 0
    cur,                  \* the running frame or 0
    owner,                \* the reference which is being resumed
    used,                 \* number of frames created
    stk,                  \* ghost: bottom frame -> the stack
    bad                   \* a frame was touched after its destruction

vars == <<nx, pv, first, lst, live, dead, ref, cur, owner, used, stk, bad>>
Fr == 1..F

Init ==
    /\ nx = [f \in Fr |-> 0] /\ pv = [f \in Fr |-> 0]
    /\ first = [f \in Fr |-> f] /\ lst = [f \in Fr |-> f]
    /\ live = {} /\ dead = <<>> /\ ref = [r \in 1..NR |-> 0]
    /\ cur = 0 /\ owner = 0 /\ used = 0 /\ stk = [f \in Fr |-> <<>>] /\ bad = FALSE

S == [nx |-> nx, pv |-> pv, live |-> live, dead |-> <<>>, bad |-> FALSE]
Touch(s, f) == IF f \in s.live THEN s ELSE [s EXCEPT !.bad = TRUE]

RECURSIVE Unref(_, _), Down(_, _), TopOf(_, _, _)
TopOf(s, f, n) == IF n = 0 \/ s.nx[f] = 0 THEN f ELSE TopOf(s, s.nx[f], n - 1)
\* handle.destroy(): the promise's myNext goes away as a member.
Kill(s0, f) ==
    LET s == Touch(s0, f)
        d == [s EXCEPT !.live = @ \ {f}, !.dead = Append(@, f), !.nx[f] = 0, !.pv[f] = 0]
    IN  IF s.nx[f] = 0 THEN d ELSE Unref(d, s.nx[f])
\* while (prev = top.myPrev) { prev.myNext.myPrev = {}; prev.myNext = {}; top = prev; }
Down(s0, t) ==
    LET s == Touch(s0, t)
        p == s.pv[t]
    IN  IF p = 0 THEN s
        ELSE LET n == Touch(s, p).nx[p]
                 a == IF n = 0 THEN [s EXCEPT !.bad = TRUE] ELSE [Touch(s, n) EXCEPT !.pv[n] = 0, !.nx[p] = 0]
             IN  Down(IF n = 0 THEN a ELSE Unref(a, n), p)
Unref(s, f) == IF f = 0 THEN s ELSE Kill(Down(Touch(s, f), TopOf(s, f, F)), f)

Apply(s) == /\ nx' = s.nx /\ pv' = s.pv /\ live' = s.live /\ dead' = s.dead /\ bad' = (bad \/ s.bad)

\* A new bottom coroutine is assigned to reference r.
Assign(r) ==
    /\ cur = 0 /\ used < F
    /\ LET f == used + 1 IN
       /\ used' = f
       /\ ref' = [ref EXCEPT ![r] = f]
       /\ LET s == Unref([S EXCEPT !.live = @ \cup {f}], ref[r]) IN Apply(s)
       /\ stk' = [stk EXCEPT ![f] = <<f>>]
       /\ UNCHANGED <<first, lst, cur, owner>>
Move(a, b) ==
    /\ cur = 0 /\ a # b
    /\ Apply(Unref(S, ref[b]))
    /\ ref' = [ref EXCEPT ![b] = ref[a], ![a] = 0]
    /\ UNCHANGED <<first, lst, cur, owner, used, stk>>
Clear(r) ==
    /\ cur = 0 /\ ref[r] # 0
    /\ Apply(Unref(S, ref[r]))
    /\ ref' = [ref EXCEPT ![r] = 0]
    /\ UNCHANGED <<first, lst, cur, owner, used, stk>>
\* ResumeTop()
Resume(r) ==
    /\ cur = 0 /\ ref[r] # 0 /\ stk[ref[r]] # <<>>
    /\ cur' = lst[ref[r]] /\ owner' = r
    /\ bad' = (bad \/ lst[ref[r]] \notin live)
    /\ dead' = <<>>
    /\ UNCHANGED <<nx, pv, first, lst, live, ref, used, stk>>
Suspend == cur # 0 /\ cur' = 0 /\ owner' = 0 /\ dead' = <<>> /\ UNCHANGED <<nx, pv, first, lst, live, ref, used, stk, bad>>
\* co_await CoroCall(...)
Call ==
    /\ cur # 0 /\ used < F
    /\ LET f == used + 1 IN
       /\ used' = f
       /\ live' = live \cup {f}
       /\ pv' = [pv EXCEPT ![f] = cur]
       /\ nx' = [nx EXCEPT ![cur] = f]
       /\ first' = [first EXCEPT ![f] = first[cur]]
       /\ lst' = [lst EXCEPT ![first[cur]] = f]
       /\ bad' = (bad \/ first[cur] \notin live \/ cur \notin live \/ nx[cur] # 0)
       /\ stk' = [stk EXCEPT ![ref[owner]] = Append(@, f)]
       /\ cur' = f
    /\ dead' = <<>>
    /\ UNCHANGED <<ref, owner>>
\* CoroOpFinal: a bottom frame stays suspended at its end until its reference goes.
Final ==
    /\ cur # 0
    /\ IF pv[cur] = 0
       THEN /\ cur' = 0 /\ owner' = 0 /\ dead' = <<>> /\ stk' = [stk EXCEPT ![ref[owner]] = <<>>]
            /\ UNCHANGED <<nx, pv, live, lst, bad>>
       ELSE LET p == pv[cur]
                s0 == [S EXCEPT !.pv[cur] = 0, !.nx[p] = 0]
                s == Unref(IF p \in live THEN s0 ELSE [s0 EXCEPT !.bad = TRUE], nx[p])
            IN /\ Apply([s EXCEPT !.bad = @ \/ first[p] \notin s.live])
               /\ lst' = [lst EXCEPT ![first[p]] = p]
               /\ cur' = p /\ UNCHANGED owner
               /\ stk' = [stk EXCEPT ![ref[owner]] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<first, ref, used>>
\* An exit from inside: the owner of the running stack is destroyed.
Exit ==
    /\ cur # 0
    /\ Apply(Unref(S, ref[owner]))
    /\ ref' = [ref EXCEPT ![owner] = 0]
    /\ cur' = 0 /\ owner' = 0
    /\ UNCHANGED <<first, lst, used, stk>>

Next == \/ \E r \in 1..NR : Assign(r) \/ Clear(r) \/ Resume(r)
        \/ \E a, b \in 1..NR : Move(a, b)
        \/ Suspend \/ Call \/ Final \/ Exit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Chain(_, _)
Chain(f, n) == IF f = 0 \/ n = 0 THEN <<>> ELSE <<f>> \o Chain(nx[f], n - 1)
NotBad == ~bad
\* The links of what a reference owns are exactly its stack, and its top is what is resumed.
Linked == \A r \in 1..NR : ref[r] # 0 =>
    LET k == stk[ref[r]] IN
    IF k = <<>> THEN Chain(ref[r], F + 1) = <<ref[r]>>
    ELSE /\ Chain(ref[r], F + 1) = k
         /\ lst[ref[r]] = k[Len(k)]
         /\ \A i \in 2..Len(k) : pv[k[i]] = k[i - 1] /\ first[k[i]] = k[1]
         /\ pv[k[1]] = 0
\* Exactly what is owned exists.
Owned == live = UNION {IF ref[r] = 0 THEN {} ELSE
                       {Chain(ref[r], F + 1)[i] : i \in 1..Len(Chain(ref[r], F + 1))} : r \in 1..NR}
RunTop == cur # 0 => stk[ref[owner]] # <<>> /\ cur = stk[ref[owner]][Len(stk[ref[owner]])]
\* Frames of one stack are created from the bottom to the top, and destroyed in the other order.
Order == \A i \in 1..Len(dead) - 1 : dead[i] > dead[i + 1]
=============================================================================
