------------------------------- MODULE TlsMC -------------------------------
(* Two contexts are configured by any calls; the context keeps its settings as the code does (one
   list of ciphers filtered into two lists of the library, borders which correct each other), which
   must mean what Tls says; and what Tls says must be safe. *)
EXTENDS Tls
CONSTANTS Trusts_, Vers, Cis, CAs, LCs, MaxCi

VARIABLES cs,  \* 1 the server, 2 the client, as Tls says
          im,  \* as the code does: [min, max, all, l12, l13]; empty lists: the default ones
          last \* the last call
vars == <<cs, im, last>>

Init == /\ cs = <<NewCtx(TRUE), NewCtx(FALSE)>>
        /\ im = [i \in 1..2 |-> [min |-> -1, max |-> -1, all |-> <<>>, l12 |-> <<>>, l13 |-> <<>>]]
        /\ last = <<"init", 0, 0>>
Put(i, c) == cs' = [cs EXCEPT ![i] = c]
Trust(i, t) == Put(i, [cs[i] EXCEPT !.tr = t]) /\ last' = <<"tr", i, t>> /\ UNCHANGED im
Authority(i, k) == Put(i, [cs[i] EXCEPT !.ca = @ \cup {k}]) /\ last' = <<"ca", i, k>> /\ UNCHANGED im
Local(i, k) == cs[i].lc = NoCert /\ Put(i, [cs[i] EXCEPT !.lc = k]) /\ last' = <<"lc", i, k>> /\ UNCHANGED im
\* SSLContextOpenSSL::SetMinVersion / SetMaxVersion (0 is "not set" there).
Minimum(i, v) ==
    LET x == IF v = 4 THEN 0 ELSE v IN
    /\ im' = [im EXCEPT ![i] = IF @.max # -1 /\ @.max < x THEN [@ EXCEPT !.min = x, !.max = x] ELSE [@ EXCEPT !.min = x]]
    /\ Put(i, SetMin(cs[i], v)) /\ last' = <<"min", i, v>>
Maximum(i, v) ==
    LET x == IF v = 4 THEN 3 ELSE v IN
    /\ im' = [im EXCEPT ![i] = IF @.min # -1 /\ @.min > x THEN [@ EXCEPT !.min = x, !.max = x] ELSE [@ EXCEPT !.max = x]]
    /\ Put(i, SetMax(cs[i], v)) /\ last' = <<"max", i, v>>
\* AddCipher: a repeated one is ignored; the list of its version is built again and given to the library.
Add(i, k) ==
    /\ Len(cs[i].ci) < MaxCi \/ In(cs[i].ci, k)
    /\ im' = [im EXCEPT ![i] =
          IF In(@.all, k) THEN @
          ELSE IF Of13(k) THEN [@ EXCEPT !.all = Append(@, k), !.l13 = Append(SelectSeq(im[i].all, Of13), k)]
          ELSE [@ EXCEPT !.all = Append(@, k), !.l12 = Append(SelectSeq(im[i].all, Of12), k)]]
    /\ Put(i, AddCipher(cs[i], k)) /\ last' = <<"ci", i, k>>

Next == \E i \in 1..2 :
    \/ \E t \in Trusts_ : Trust(i, t)
    \/ \E v \in Vers : Minimum(i, v) \/ Maximum(i, v)
    \/ \E k \in Cis : Add(i, k)
    \/ \E k \in CAs : Authority(i, k)
    \/ \E k \in LCs : Local(i, k)
Spec == Init /\ [][Next]_vars
View == <<cs, im>>

S == cs[1]
C == cs[2]
\* The code keeps what Tls says.
Kept == \A i \in 1..2 :
    /\ im[i].min = cs[i].lo /\ im[i].max = cs[i].hi /\ im[i].all = cs[i].ci
    /\ Ciphers(cs[i], 3) = IF im[i].l13 = <<>> THEN <<4, 5, 3>> ELSE im[i].l13
    /\ Ciphers(cs[i], 2) = IF im[i].l12 = <<>> THEN <<2, 1, 0>> ELSE im[i].l12
\* A range is never impossible, so any two sides with everything by default and one common version
\* have something to agree on.
RangeOk == \A i \in 1..2 : Lo(cs[i]) <= Hi(cs[i])
\* A connection is made only as both sides let it.
Safe == MayConnect(S, C) =>
    LET v == Version(S, C)
        k == Cipher(S, C, v)
    IN /\ \A i \in 1..2 : Lo(cs[i]) <= v /\ v <= Hi(cs[i])
       /\ k # 0 => (Of13(k) <=> v = 3)
       /\ \A i \in 1..2 : (\E x \in DOMAIN cs[i].ci : Of13(cs[i].ci[x]) = (v = 3)) => In(cs[i].ci, k)
       /\ S.lc # NoCert
       /\ \A i \in 1..2 : LET p == cs[3 - i] IN
              /\ cs[i].tr # Bypass => p.lc # NoCert /\ InTime(p.lc)
              /\ cs[i].tr = Strict => Issuer(p.lc) \in cs[i].ca
              /\ cs[i].tr = Relaxed => Issuer(p.lc) \in cs[i].ca \cup p.ca \cup {3}
\* The highest version both have is taken.
Highest == Connects(S, C) => \A v \in 0..3 : (\A i \in 1..2 : Lo(cs[i]) <= v /\ v <= Hi(cs[i])) => v <= Version(S, C)
\* No level trusts less than the strict one, none more than the bypass.
Ordered == \A i \in 1..2 : \A t \in 0..3 :
    LET As(x) == [cs[i] EXCEPT !.tr = x] IN
    /\ Trusts(As(Strict), cs[3 - i]) => Trusts(As(t), cs[3 - i])
    /\ MayTrust(As(t), cs[3 - i]) => Trusts(As(Bypass), cs[3 - i])
\* Authorities and certificates make nobody less trusted; a repeated cipher changes nothing.
Monotone == [][last'[1] \in {"ca", "lc"} =>
    \A i \in 1..2 : Trusts(cs[i], cs[3 - i]) => Trusts(cs'[i], cs'[3 - i])]_vars
=============================================================================
