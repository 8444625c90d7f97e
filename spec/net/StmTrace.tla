------------------------------ MODULE StmTrace ------------------------------
(* Accepts the traces of drv/sslstm.cpp. *)
EXTENDS Stm, Trc

vars == <<svars, trcVars>>
Init == TrcInit /\ SInit(Len(Traces[tid].cfg.p))
UA(v) == UNCHANGED v

S == <<Ev.p, Ev.s>>
C == TCfg.p[Ev.p]
NewRank == IF Ev.cd = 1 THEN 4 ELSE IF Ev.cg = 1 THEN 3 ELSE IF Ev.co = 1 THEN 2 ELSE IF Ev.en = 1 THEN 1 ELSE 0
\* The flags agree with each other, and the state changed as it may.
State(act) ==
    /\ (Ev.en = 1) = (NewRank > 0)
    /\ Ev.cd = 1 => Ev.cg = 1
    /\ ~(Ev.co = 1 /\ Ev.cg = 1)
    /\ MayRank(C, S, NewRank, act)
    /\ rank' = [rank EXCEPT ![S] = NewRank]
    /\ err[S] => Ev.er = 1
    /\ Ev.er = 1 /\ ~err[S] => MayErr(C, S, act)
    /\ Ev.er = 1 => NewRank >= 3
    /\ err' = [err EXCEPT ![S] = Ev.er = 1]

Step == Consume /\
    \/ /\ Ev.e = "new" /\ State("new") /\ NewRank = 0 /\ Ev.er = 0
       /\ UA(<<acc, due, del, clr, fed, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "cn" /\ State("cn") /\ NewRank = 1 /\ clr' = [clr EXCEPT ![S] = acc[S]]
       /\ UA(<<acc, due, del, fed, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "sh" /\ State("sh") /\ NewRank >= 3
       /\ stop' = [stop EXCEPT ![S] = IF @ = -1 THEN rank[S] ELSE @]
       /\ drop' = [drop EXCEPT ![S] = @ \/ rank[S] = 0]
       /\ UA(<<acc, due, del, clr, fed, dam, sure>>)
    \/ /\ Ev.e = "ap" /\ State("ap")
       \* Closed here: not accepted.
       /\ acc' = [acc EXCEPT ![S] = IF rank[S] >= 3 THEN @ ELSE @ + Ev.n]
       /\ due' = [due EXCEPT ![S] = IF rank[S] = 2 /\ NewRank = 2 THEN acc'[S] ELSE @]
       /\ UA(<<del, clr, fed, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "no" /\ State("no")
       /\ Ev.n = Ev.z /\ Ev.m = Ev.n /\ Ev.vis = 0
       /\ rank[S] = 0 => clr[S] + Ev.n = acc[S]
       /\ drop[S] => Ev.n = 0
       /\ clr' = [clr EXCEPT ![S] = IF rank[S] = 0 THEN @ + Ev.n ELSE @]
       /\ due' = [due EXCEPT ![S] = IF rank[S] = 2 /\ NewRank = 2 THEN acc[S] ELSE @]
       /\ UA(<<acc, del, fed, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "ni" /\ State("ni") /\ NewRank = rank[S]
       /\ fed' = [fed EXCEPT ![S] = @ + Ev.n]
       /\ UA(<<acc, due, del, clr, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "po" /\ State("po")
       /\ Ev.n = Ev.z /\ Ev.m = Ev.n
       /\ del' = [del EXCEPT ![S] = @ + Ev.n]
       /\ del'[S] <= acc[Other(S)]
       /\ rank[S] = 0 => del'[S] = fed[S]
       /\ rank[S] >= 3 => Ev.n = 0
       /\ Ev.n > 0 => NewRank = 0 \/ NewRank >= 2
       /\ due' = [due EXCEPT ![S] = IF rank[S] = 2 /\ NewRank = 2 THEN acc[S] ELSE @]
       /\ UA(<<acc, clr, fed, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "up" /\ State("up")
       \* Update tells about errors.
       /\ (Ev.v = 1) = (Ev.er = 0)
       /\ due' = [due EXCEPT ![S] = IF rank[S] = 2 /\ NewRank = 2 THEN acc[S] ELSE @]
       /\ UA(<<acc, del, clr, fed, stop, dam, sure, drop>>)
    \/ /\ Ev.e = "dm" /\ dam' = [dam EXCEPT ![Ev.p] = TRUE] /\ sure' = [sure EXCEPT ![S] = @ \/ Ev.sure = 1]
       /\ UA(<<rank, err, acc, due, del, clr, fed, stop, drop>>)
    \/ /\ Ev.e = "ver" /\ Ev.v = Common(C) /\ Ev.c = 1 /\ UA(svars)
    \/ /\ Ev.e = "qu" /\ Quiet(TCfg.p[Ev.p], Ev.p, Ev.w1, Ev.w2) /\ UA(svars)
    \/ /\ Ev.e = "end" /\ UA(svars)
    \* "uaf", "fatal": never.

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
