-------------------------------- MODULE Tls --------------------------------
(* What an encryption context allows, and what comes out of a connection of two contexts (C31).
   Versions: 0..3 (1.0 .. 1.3). Ciphers: 1, 2 of TLS 1.2; 3, 4, 5 of TLS 1.3; 0 another one.
   Certificates: 1, 2 authorities, 3 self-signed, 4 issued by 1, 5 by 2, 6 by 1 but expired, 7 by 1
   but not valid yet, 8 by 1 with an RSA key, 9 garbage. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NoCert == 0
Strict == 0
Relaxed == 1
Unsecure == 2
Bypass == 3
NewCtx(srv) == [srv |-> srv, tr |-> Strict, lo |-> -1, hi |-> -1, ci |-> <<>>, ca |-> {}, lc |-> NoCert]

Issuer(c) == CASE c = 3 -> 3 [] c \in {4, 6, 7, 8} -> 1 [] c = 5 -> 2 [] OTHER -> c
KeyOf(c) == CASE c \in {4, 6, 7} -> 1 [] c = 5 -> 2 [] c = 3 -> 3 [] c = 8 -> 4 [] OTHER -> 0
IsRSA(c) == c = 8
InTime(c) == c \notin {6, 7}

(* ---- configuration ---- *)
\* The last call wins: the other border gives way.
SetMin(c, v) == LET x == IF v = 4 THEN 0 ELSE v IN
    [c EXCEPT !.lo = x, !.hi = IF @ # -1 /\ @ < x THEN x ELSE @]
SetMax(c, v) == LET x == IF v = 4 THEN 3 ELSE v IN
    [c EXCEPT !.hi = x, !.lo = IF @ # -1 /\ @ > x THEN x ELSE @]
AddCipher(c, k) == [c EXCEPT !.ci = IF \E i \in DOMAIN @ : @[i] = k THEN @ ELSE Append(@, k)]

(* ---- outcome ---- *)
Lo(c) == IF c.lo = -1 THEN 0 ELSE c.lo
Hi(c) == IF c.hi = -1 THEN 3 ELSE c.hi
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* The highest common version; -1 if none.
Version(s, c) == IF Max(Lo(s), Lo(c)) > Min(Hi(s), Hi(c)) THEN -1 ELSE Min(Hi(s), Hi(c))
Of12(k) == k \in {1, 2}
Of13(k) == k \in {3, 4, 5}
\* Ciphers for a version in the order of preference; the default ones when nothing is chosen.
Ciphers(c, v) == IF v = 3
    THEN LET x == SelectSeq(c.ci, Of13) IN IF x = <<>> THEN <<4, 5, 3>> ELSE x
    ELSE LET x == SelectSeq(c.ci, Of12) IN
         IF v = 2 THEN IF x = <<>> THEN <<2, 1, 0>> ELSE x
         ELSE IF x = <<>> THEN <<0>> ELSE <<>>
In(x, k) == \E i \in DOMAIN x : x[i] = k
\* The first one of the client which the server has too and its key fits; -1 if none.
Cipher(s, c, v) ==
    LET Fits(k) == In(Ciphers(s, v), k) /\ (k \in {1, 2} => ~IsRSA(s.lc))
        x == SelectSeq(Ciphers(c, v), Fits)
    IN IF x = <<>> THEN -1 ELSE x[1]

\* The certificate of the peer can be verified.
Valid(c, p) == p.lc # NoCert /\ InTime(p.lc) /\ Issuer(p.lc) \in c.ca
\* Levels: a valid one; or its authority is signed by itself and the peer shows it; or anything.
Trusts(c, p) ==
    \/ c.tr = Bypass
    \/ Valid(c, p)
    \/ c.tr = Relaxed /\ p.lc # NoCert /\ InTime(p.lc) /\ p.lc # 3 /\ Issuer(p.lc) \in p.ca
\* How far the middle levels go beyond that is not fixed, but a certificate must be in time, and the
\* unsecure level does not take one which is only signed by itself.
MayTrust(c, p) ==
    \/ Trusts(c, p)
    \/ /\ p.lc # NoCert /\ InTime(p.lc)
       /\ (c.tr = Unsecure /\ p.lc # 3) \/ (c.tr = Relaxed /\ p.lc = 3)
Agree(s, c) == s.lc # NoCert /\ Version(s, c) # -1 /\ Cipher(s, c, Version(s, c)) # -1
MayConnect(s, c) == Agree(s, c) /\ MayTrust(c, s) /\ MayTrust(s, c)
Connects(s, c) == Agree(s, c) /\ Trusts(c, s) /\ Trusts(s, c)
=============================================================================
