------------------------------- MODULE Num64 -------------------------------
(* Numbers of four digits (the most significant one first) in base B: 64-bit numbers when
   B = 65536. *)
EXTENDS Naturals, Integers, Sequences
CONSTANT B
Zero == <<0, 0, 0, 0>>
MaxNum == <<B - 1, B - 1, B - 1, B - 1>>
Nums == [1..4 -> 0..(B - 1)]
RECURSIVE CmpAt(_, _, _)
\* -1, 0, 1
CmpAt(a, b, i) == IF i > 4 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i + 1)
Cmp(a, b) == CmpAt(a, b, 1)
Le(a, b) == Cmp(a, b) <= 0
\* Sum: [o |-> overflow, v |-> value]
Add(a, b) ==
    LET s4 == a[4] + b[4]
        s3 == a[3] + b[3] + s4 \div B
        s2 == a[2] + b[2] + s3 \div B
        s1 == a[1] + b[1] + s2 \div B
    IN [o |-> s1 \div B, v |-> <<s1 % B, s2 % B, s3 % B, s4 % B>>]
\* Difference for b <= a.
Comp(b) == <<B - 1 - b[1], B - 1 - b[2], B - 1 - b[3], B - 1 - b[4]>>
Sub(a, b) == Add(Add(a, Comp(b)).v, <<0, 0, 0, 1>>).v
=============================================================================
