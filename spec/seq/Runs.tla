-------------------------------- MODULE Runs --------------------------------
(* Byte strings in run-length form: <<first, length>> pairs; inside a run each byte is its
   predecessor plus 1 modulo M. The normal form has no empty and no mergeable runs. *)
EXTENDS Naturals, Sequences
M == 251
RECURSIVE NormR(_, _)
NormR(s, acc) ==
    IF s = <<>> THEN acc
    ELSE LET x == Head(s) n == Len(acc) IN
         IF x[2] = 0 THEN NormR(Tail(s), acc)
         ELSE IF n > 0 /\ (acc[n][1] + acc[n][2]) % M = x[1]
              THEN NormR(Tail(s), [acc EXCEPT ![n] = <<@[1], @[2] + x[2]>>])
              ELSE NormR(Tail(s), Append(acc, x))
Norm(s) == NormR(s, <<>>)
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + Bytes(Tail(s))
RECURSIVE DropB(_, _)
DropB(s, k) == IF k = 0 \/ s = <<>> THEN s
               ELSE LET x == Head(s) IN
                    IF x[2] <= k THEN DropB(Tail(s), k - x[2])
                    ELSE <<<<(x[1] + k) % M, x[2] - k>>>> \o Tail(s)
RECURSIVE TakeB(_, _)
TakeB(s, k) == IF k = 0 \/ s = <<>> THEN <<>>
               ELSE LET x == Head(s) IN
                    IF x[2] <= k THEN <<x>> \o TakeB(Tail(s), k - x[2]) ELSE <<<<x[1], k>>>>
Interval(a, b) == IF a = b THEN <<>> ELSE <<<<a % M, b - a>>>>
=============================================================================
