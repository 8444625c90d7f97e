------------------------------ MODULE TlsTrace ------------------------------
(* Accepts the traces of drv/tls.cpp. *)
EXTENDS Tls, Trc

VARIABLES cs,   \* contexts
          ord,  \* authorities in the order they were added
          used  \* those which made connections or were given an authority again (which may
                \* reorder the authorities inside), or
                \* refused a local certificate (and may have kept a part of it)
vars == <<cs, ord, used, trcVars>>
Init == TrcInit /\ cs = [i \in 1..Traces[tid].cfg.n |-> NewCtx(FALSE)] /\ used = {}
        /\ ord = [i \in 1..Traces[tid].cfg.n |-> <<>>]

C == cs[Ev.i]
Put(c) == cs' = [cs EXCEPT ![Ev.i] = c]
Same == UNCHANGED <<used, ord>>
Bit(c) == IF c THEN 1 ELSE 0

\* May the certificate be added? In files RSA is for those who are not strict.
CaOk(e) == e.v # 9 /\ (e.v = 10 => C.tr # Strict)
LcOk(e) ==
    /\ e.v # 9 /\ e.k = KeyOf(e.v)
    /\ IsRSA(e.v) => C.tr # Strict /\ e.w # 0
    /\ e.w = 2 => e.pw = 1

Hs(e) ==
    LET s == cs[e.i]
        c == cs[e.j]
        v == Version(s, c)
        ok == e.sc = 1 /\ e.cc = 1
    IN
    /\ ok => MayConnect(s, c)
    /\ Connects(s, c) => ok
    /\ ok => /\ e.sv = v /\ e.cv = v
             /\ e.sk = Cipher(s, c, v) /\ e.ck = e.sk
             /\ e.se = 0 /\ e.ce = 0 /\ e.ds = 1 /\ e.dc = 1
    \* Nothing is told to a peer who is not trusted, or heard from it.
    /\ ~ok => /\ e.ds = 0 /\ e.dc = 0 /\ e.se + e.ce > 0 /\ (e.sc = 1 => e.se = 0) /\ (e.cc = 1 => e.ce = 0)
              /\ e.cc = 1 => MayTrust(c, s) /\ Agree(s, c)
              /\ e.sc = 1 => MayTrust(s, c) /\ Agree(s, c)

Next ==
    /\ Consume
    /\ LET e == Ev IN
       \/ e.e = "new" /\ e.is = e.s /\ Put(NewCtx(e.s = 1)) /\ used' = used \ {e.i} /\ ord' = [ord EXCEPT ![e.i] = <<>>]
       \/ e.e = "tr" /\ e.r = 1 /\ Put([C EXCEPT !.tr = e.v]) /\ Same
       \/ e.e = "min" /\ e.r = 1 /\ Put(SetMin(C, e.v)) /\ Same
       \/ e.e = "max" /\ e.r = 1 /\ Put(SetMax(C, e.v)) /\ Same
       \/ e.e = "ci" /\ e.r = 1 /\ Put(AddCipher(C, e.v)) /\ Same
       \/ e.e = "ca" /\ e.r = Bit(CaOk(e)) /\ Put(IF e.r = 1 THEN [C EXCEPT !.ca = @ \cup {e.v}] ELSE C)
                      /\ used' = (IF e.v \in C.ca THEN used \cup {e.i} ELSE used)
                      /\ ord' = [ord EXCEPT ![e.i] = IF e.r = 0 \/ e.v \in C.ca THEN @ ELSE Append(@, e.v)]
       \/ e.e = "lc" /\ e.r = Bit(LcOk(e)) /\ Put(IF e.r = 1 THEN [C EXCEPT !.lc = e.v] ELSE C) /\ UNCHANGED ord
                      /\ used' = (IF e.r = 0 THEN used \cup {e.i} ELSE used)
       \/ e.e = "hs" /\ Hs(e) /\ used' = used \cup {e.i, e.j} /\ UNCHANGED <<cs, ord>>
       \/ e.e = "eq" /\ UNCHANGED <<cs, ord, used>>
                      /\ (e.r = 1 => cs[e.i] = cs[e.j])
                      /\ ((cs[e.i] = cs[e.j] /\ ord[e.i] = ord[e.j] /\ {e.i, e.j} \cap used = {}) => e.r = 1)
       \/ e.e = "end" /\ UNCHANGED <<cs, ord, used>>
       \* "uaf", "fatal": never.

Spec == Init /\ [][Next]_vars
=============================================================================
