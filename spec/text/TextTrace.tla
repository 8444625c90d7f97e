----------------------------- MODULE TextTrace -----------------------------
(* Accepts the traces of drv/text.cpp: hosts are objects with a history (C28); URLs (C29), numbers
   and strings (C30) are functions. *)
EXTENDS Text, Trc

VARIABLE hs \* the hosts
vars == <<hs, trcVars>>
Init == TrcInit /\ hs = [i \in 1..4 |-> NoHost]

Obs(e) == [f |-> e.f, a |-> e.a, p |-> e.p]
Put(i, h) == hs' = [hs EXCEPT ![i] = h]
Is(e, h) == Put(e.i, h) /\ Obs(e) = h
Bit(c) == IF c THEN 1 ELSE 0

Set(e) ==
    LET h == HostOf(e.s) IN
    \/ h # NoHost /\ e.r = 1 /\ Is(e, h)
    \/ (h = NoHost \/ Vague(e.s)) /\ e.r = 0 /\ Is(e, hs[e.i])
\* Constructed from a text.
New(e) ==
    LET h == HostOf(e.s) IN
    \/ Is(e, h)
    \/ Vague(e.s) /\ Is(e, NoHost)
Make(e) ==
    Is(e, CASE e.k = 0 -> H4(<<127, 0, 0, 1>>, e.n) [] e.k = 1 -> H6([i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0], e.n)
            [] e.k = 2 -> H4(<<0, 0, 0, 0>>, e.n) [] e.k = 3 -> H6([i \in 1..16 |-> 0], e.n))

Num(e) ==
    LET max == CASE e.w = 16 -> Max16 [] e.w = 32 -> Max32 [] e.w = 64 -> Max64 IN
    IF e.r = 1 THEN IsNum(e.s, max) /\ e.v = NoZeros(NumOf(e.s))
    ELSE (IsNum(e.s, max) => Signed(e.s)) /\ (e.w # 64 => e.v = e.o)
\* The first occurrence ignoring the case.
RECURSIVE Occ(_, _, _)
Occ(s, t, p) ==
    IF p + Len(t) - 1 > Len(s) THEN 0
    ELSE IF \A i \in 1..Len(t) : Lower(s[p + i - 1]) = Lower(t[i]) THEN p ELSE Occ(s, t, p + 1)

Next ==
    /\ Consume
    /\ LET e == Ev IN
       \/ (e.e = "set" /\ Set(e))
       \/ e.e = "new" /\ New(e)
       \/ e.e = "mk" /\ Make(e)
       \/ e.e = "sa" /\ Is(e, [f |-> e.f0, a |-> e.a0, p |-> e.p0])
       \/ e.e = "clr" /\ Is(e, NoHost)
       \/ e.e = "cp" /\ Is(e, hs[e.j])
       \/ e.e = "prt" /\ hs[e.i].f # 0 /\ Is(e, [hs[e.i] EXCEPT !.p = e.n])
       \/ e.e = "cmp" /\ e.eq = Bit(hs[e.i] = hs[e.j]) /\ e.ne = 1 - e.eq
                      /\ e.np = Bit(hs[e.i].f = hs[e.j].f /\ hs[e.i].a = hs[e.j].a) /\ UNCHANGED hs
       \/ e.e = "str" /\ Prints(hs[e.i], e.s, e.t) /\ UNCHANGED hs
       \/ e.e = "url" /\ UNCHANGED hs /\ LET u == URLOf(e.s) IN
              u.pr = e.pr /\ u.ho = e.ho /\ u.ta = e.ta /\ (u.po = e.po \/ (u.vague /\ e.po = 0))
       \/ e.e = "num" /\ Num(e) /\ UNCHANGED hs
       \/ e.e = "trim" /\ e.t = Trim(e.s) /\ UNCHANGED hs
       \/ e.e = "cas" /\ e.p = Occ(e.s, e.t, 1) /\ UNCHANGED hs
       \/ e.e = "fmt" /\ e.t = e.s \o <<124>> \o Dec(e.n) \o <<124>> /\ UNCHANGED hs
       \* "fatal", "uaf": never.

Spec == Init /\ [][Next]_vars
=============================================================================
