-------------------------------- MODULE Text --------------------------------
(* What texts denote: numbers, addresses, hosts, URLs (C28, C29, C30). A text is a sequence of
   character codes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Colon == 58
Dot == 46
Slash == 47
Open == 91
Shut == 93
Plus == 43
Spaces == {9, 10, 11, 12, 13, 32}
IsDigit(c) == c \in 48..57
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

\* Position of the first c in s from p on, 0 - nowhere.
RECURSIVE Find(_, _, _)
Find(s, c, p) == IF p > Len(s) THEN 0 ELSE IF s[p] = c THEN p ELSE Find(s, c, p + 1)
From(s, p) == SubSeq(s, p, Len(s))
UpTo(s, p) == SubSeq(s, 1, p)
RECURSIVE Split(_, _)
Split(s, c) == LET p == Find(s, c, 1) IN IF p = 0 THEN <<s>> ELSE <<UpTo(s, p - 1)>> \o Split(From(s, p + 1), c)
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in Spaces THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Spaces THEN RTrim(UpTo(s, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))

(*************************************** Numbers ***************************************)
\* A number is the sequence of its decimal digits without leading zeros.
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
NumLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLe(a, b)
Max16 == <<54, 53, 53, 51, 53>>
Max32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
Max64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE ValAt(_, _, _)
ValAt(s, i, v) == IF i > Len(s) THEN v ELSE ValAt(s, i + 1, v * 10 + s[i] - 48)
Val(s) == ValAt(s, 1, 0)
\* Spaces before the digits are skipped. The explicit plus is not specified.
Signed(s) == LET t == LTrim(s) IN t # <<>> /\ t[1] = Plus
NumOf(s) == LET t == LTrim(s) IN IF Signed(s) THEN Tail(t) ELSE t
IsNum(s, max) == Digits(NumOf(s)) /\ NumLe(NoZeros(NumOf(s)), max)

(************************************** Addresses **************************************)
IsOctet(s) == Digits(s) /\ Len(s) <= 3 /\ (s[1] = 48 => Len(s) = 1) /\ Val(s) <= 255
IsV4(s) == LET p == Split(s, Dot) IN Len(p) = 4 /\ \A i \in 1..4 : IsOctet(p[i])
V4(s) == LET p == Split(s, Dot) IN [i \in 1..4 |-> Val(p[i])]

IsGroup(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : IsHex(s[i])
RECURSIVE HexAt(_, _, _)
HexAt(s, i, v) == IF i > Len(s) THEN v ELSE HexAt(s, i + 1, v * 16 + HexVal(s[i]))
GroupBytes(s) == LET v == HexAt(s, 1, 0) IN <<v \div 256, v % 256>>
\* The groups separated with colons. The last one can be an IPv4 address.
IsGroups(s, tail4) ==
    \/ s = <<>>
    \/ LET p == Split(s, Colon) IN
       \A i \in 1..Len(p) : IsGroup(p[i]) \/ (tail4 /\ i = Len(p) /\ IsV4(p[i]))
RECURSIVE Concat(_)
Concat(p) == IF p = <<>> THEN <<>> ELSE Head(p) \o Concat(Tail(p))
GroupsBytes(s) ==
    IF s = <<>> THEN <<>> ELSE
    LET p == Split(s, Colon) IN Concat([i \in 1..Len(p) |-> IF IsGroup(p[i]) THEN GroupBytes(p[i]) ELSE V4(p[i])])
Gaps(s) == {i \in 1..(Len(s) - 1) : s[i] = Colon /\ s[i + 1] = Colon}
NoAddr == <<>>
\* The bytes of the address, <<>> - not an address.
V6(s) ==
    LET g == Gaps(s) IN
    IF g = {} THEN IF s # <<>> /\ IsGroups(s, TRUE) /\ Len(GroupsBytes(s)) = 16 THEN GroupsBytes(s) ELSE NoAddr
    ELSE IF Cardinality(g) > 1 THEN NoAddr
    ELSE LET p == CHOOSE i \in g : TRUE
             a == UpTo(s, p - 1)
             b == From(s, p + 2)
         IN IF ~IsGroups(a, FALSE) \/ ~IsGroups(b, TRUE) THEN NoAddr
            ELSE LET x == GroupsBytes(a)
                     y == GroupsBytes(b)
                     n == 16 - Len(x) - Len(y)
                 IN IF n < 2 THEN NoAddr ELSE x \o [i \in 1..n |-> 0] \o y

(**************************************** Hosts ****************************************)
\* Family: 0 - not set.
NoHost == [f |-> 0, a |-> <<>>, p |-> 0]
H4(a, p) == [f |-> 4, a |-> a, p |-> p]
H6(a, p) == [f |-> 6, a |-> a, p |-> p]
\* The text without its port, the text of the port.
IsPort(s) == IsNum(s, Max16)
Port(s) == Val(NoZeros(NumOf(s)))
\* The host denoted by the text; NoHost - none.
HostOf(s) ==
    IF s # <<>> /\ s[1] = Open THEN
        LET e == Find(s, Shut, 1)
            a == IF e = 0 THEN NoAddr ELSE V6(SubSeq(s, 2, e - 1))
            r == IF e = 0 THEN <<>> ELSE From(s, e + 1)
        IN IF a = NoAddr THEN NoHost
           ELSE IF r = <<>> THEN H6(a, 0)
           ELSE IF r[1] = Colon /\ IsPort(Tail(r)) THEN H6(a, Port(Tail(r))) ELSE NoHost
    ELSE IF IsV4(s) THEN H4(V4(s), 0)
    ELSE IF V6(s) # NoAddr THEN H6(V6(s), 0)
    ELSE LET e == Find(s, Colon, 1) IN
         IF e # 0 /\ IsV4(UpTo(s, e - 1)) /\ IsPort(From(s, e + 1)) THEN H4(V4(UpTo(s, e - 1)), Port(From(s, e + 1))) ELSE NoHost
\* A port with the explicit plus can be accepted or not.
Vague(s) == HostOf(s) # NoHost /\ \E i \in 1..Len(s) : s[i] = Plus
\* How a host is printed.
NoneText == <<110, 111, 110, 101>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
V4Text(a) == Dec(a[1]) \o <<Dot>> \o Dec(a[2]) \o <<Dot>> \o Dec(a[3]) \o <<Dot>> \o Dec(a[4])
Prints(h, full, short) ==
    CASE h.f = 0 -> full = NoneText /\ short = NoneText
      [] h.f = 4 -> short = V4Text(h.a) /\ full = short \o <<Colon>> \o Dec(h.p)
      [] h.f = 6 -> V6(short) = h.a /\ full = <<Open>> \o short \o <<Shut, Colon>> \o Dec(h.p)

(***************************************** URLs ****************************************)
URLOf(s) ==
    LET c == Find(s, Colon, 1)
        slash == Find(s, Slash, 1)
        \* "://", and not inside of the target.
        proto == slash > 1 /\ slash < Len(s) /\ s[slash - 1] = Colon /\ s[slash + 1] = Slash
        r == IF proto THEN From(s, slash + 2) ELSE s
        t == Find(r, Slash, 1)
        au == IF t = 0 THEN r ELSE UpTo(r, t - 1)
        \* The port is not inside of [ipv6].
        e == IF au # <<>> /\ au[1] = Open THEN Find(au, Shut, 1) ELSE 1
        pc == IF e = 0 THEN 0 ELSE Find(au, Colon, e)
        pt == IF pc = 0 THEN <<>> ELSE From(au, pc + 1)
    IN [pr |-> IF proto THEN UpTo(s, slash - 2) ELSE <<>>,
        ho |-> IF pc = 0 THEN au ELSE UpTo(au, pc - 1),
        po |-> IF pc # 0 /\ IsNum(pt, Max16) THEN Val(NoZeros(NumOf(pt))) ELSE 0,
        vague |-> pc # 0 /\ Signed(pt),
        ta |-> IF t = 0 THEN <<>> ELSE From(r, t)]
=============================================================================
