------------------------------ MODULE StrmImpl ------------------------------
(* The algorithm of BufferStream: a chain of buffers with readable and free parts, the last
   readable and the first writable buffer remembered. Bytes are numbered from the next one to
   be read (1); a buffer is [d |-> its readable bytes, f |-> free space]. Own buffers have C
   bytes. Checked: the stream is a FIFO of exact size, and the checks which the code makes of
   itself hold. *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS C, MaxBufs, MaxBytes
VARIABLES ch, rend, wpos, rsize, wsize, model
\* ch: the chain; rend, wpos: indexes in it, 0 = none; model: bytes inside, as they should be
vars == <<ch, rend, wpos, rsize, wsize, model>>
Init == ch = <<>> /\ rend = 0 /\ wpos = 0 /\ rsize = 0 /\ wsize = 0 /\ model = 0
New == [d |-> <<>>, f |-> C]
Num(from, n) == [i \in 1..n |-> from + i]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Many(_)
Many(k) == IF k = 0 THEN <<>> ELSE <<New>> \o Many(k - 1)
Full(b) == b.f = 0
\* WriteCopy: from buffer w on, the bytes x; result [c, r, w]
RECURSIVE WriteAt(_, _, _, _)
WriteAt(c, w, x, ws) ==
    IF w > Len(c) THEN WriteAt(Append(c, New), w, x, C)
    ELSE LET cap == c[w].f n == Min(cap, Len(x))
             c2 == [c EXCEPT ![w] = [d |-> @.d \o SubSeq(x, 1, n), f |-> @.f - n]]
         IN IF cap > Len(x) THEN [c |-> c2, r |-> w, w |-> w, ws |-> ws - n]
            ELSE IF cap = Len(x) THEN [c |-> c2, r |-> w, w |-> IF w + 1 > Len(c2) THEN 0 ELSE w + 1, ws |-> ws - n]
            ELSE WriteAt(c2, w + 1, SubSeq(x, n + 1, Len(x)), ws - n)
Write(n) ==
    /\ n > 0
    /\ LET r == WriteAt(ch, IF wpos = 0 THEN Len(ch) + 1 ELSE wpos, Num(model, n), wsize)
       IN ch' = r.c /\ rend' = r.r /\ wpos' = r.w /\ wsize' = r.ws
    /\ rsize' = rsize + n /\ model' = model + n
\* EnsureWriteSize
Reserve(n) ==
    /\ wsize < n
    /\ LET k == (n - wsize + C - 1) \div C
       IN /\ ch' = ch \o Many(k) /\ wsize' = wsize + k * C
          /\ wpos' = (IF wpos = 0 THEN Len(ch) + 1 ELSE wpos)
    /\ UNCHANGED <<rend, rsize, model>>
\* PropagateWritePos, after the bytes were put to the free space
Propagate(n) ==
    /\ n > 0 /\ n <= wsize
    /\ LET r == WriteAt(ch, wpos, Num(model, n), wsize)
       IN ch' = r.c /\ rend' = r.r /\ wpos' = r.w /\ wsize' = wsize - n
    /\ rsize' = rsize + n /\ model' = model + n
\* WriteRef of a chain of one or two buffers with n1 (and n2) bytes and g1 (g2) of free space
RefChain(n1, g1, n2, g2) ==
    LET b1 == [d |-> Num(model, n1), f |-> g1]
        b2 == [d |-> Num(model + n1, n2), f |-> g2]
    IN IF n2 = 0 THEN <<b1>> ELSE <<b1, b2>>
Sub_(s, a, b) == SubSeq(s, a, b)
WriteRef(n1, g1, n2, g2) ==
    /\ n1 > 0
    /\ LET x == RefChain(n1, g1, n2, g2)
           k == Len(x)
           free == x[k].f
           n == Len(ch)
       IN IF wpos = 0 THEN
             /\ ch' = ch \o x /\ rend' = n + k /\ wsize' = free
             /\ wpos' = (IF free > 0 THEN n + k ELSE 0)
          ELSE IF rend = 0 THEN
             /\ ch' = x \o ch /\ rend' = k /\ wsize' = wsize + free
             /\ wpos' = (IF free > 0 THEN k ELSE k + 1)
          ELSE IF ch[wpos].d # <<>> THEN
             /\ ch' = Sub_(ch, 1, wpos) \o x \o Sub_(ch, wpos + 1, n)
             /\ rend' = wpos + k
             /\ wsize' = wsize - ch[wpos].f + free
             /\ wpos' = (IF free > 0 THEN wpos + k ELSE IF wpos = n THEN 0 ELSE wpos + k + 1)
          ELSE
             /\ ch' = Sub_(ch, 1, rend) \o x \o Sub_(ch, rend + 1, n)
             /\ rend' = rend + k
             /\ wsize' = wsize + free
             /\ wpos' = (IF free > 0 THEN rend + k ELSE wpos + k)
    /\ rsize' = rsize + n1 + n2 /\ model' = model + n1 + n2
Renum(c, n) == [i \in DOMAIN c |-> [c[i] EXCEPT !.d = [j \in DOMAIN @ |-> @[j] - n]]]
Shift(i, k) == IF i = 0 THEN 0 ELSE i - k
\* Consumption of n bytes: k buffers go away, then m bytes of the next one.
RECURSIVE Gone(_, _, _)
Gone(c, n, k) == IF c # <<>> /\ n > Len(c[1].d) THEN Gone(Tail(c), n - Len(c[1].d), k + 1) ELSE <<k, n>>
Cut(k) == Sub_(ch, k + 1, Len(ch))
Empty_ == ch' = <<>> /\ rend' = 0 /\ wpos' = 0 /\ wsize' = 0
\* drop(b, i): does the partially consumed buffer b with index i disappear at once?
Consume(n, read) ==
    /\ n > 0 /\ n <= rsize
    /\ LET g == Gone(ch, n, 0)
           c == Cut(g[1])
           b == [c[1] EXCEPT !.d = Sub_(@, g[2] + 1, Len(@))]
           left == rsize - n
           \* SkipData drops a buffer without free space, ReadData keeps it when it is the
           \* write position (then it is not full).
           full == b.d = <<>> /\ b.f = 0
           hole == b.d = <<>> /\ g[1] + 1 # wpos /\ (read \/ left > 0 \/ full)
           del == (IF read THEN b.d = <<>> /\ g[1] + 1 # wpos ELSE full \/ hole)
           c2 == IF del THEN Tail(c) ELSE [c EXCEPT ![1] = b]
           k == g[1] + (IF del THEN 1 ELSE 0)
       IN /\ rsize' = left
          /\ IF c2 = <<>> THEN Empty_
             ELSE /\ ch' = Renum(c2, n) /\ wpos' = Shift(wpos, k) /\ UNCHANGED wsize
                  /\ rend' = (IF left = 0 THEN 0 ELSE Shift(rend, k))
    /\ model' = model - n
Pop == /\ rend # 0
       /\ LET c == Sub_(ch, rend + 1, Len(ch)) IN
          IF c = <<>> THEN Empty_
          ELSE /\ ch' = c /\ wsize' = wsize - ch[rend].f /\ rend' = 0 /\ wpos' = 1
       /\ rsize' = 0 /\ model' = 0
Next == \/ \E n \in 1..3 : Write(n) \/ Propagate(n)
        \/ \E n \in 1..4 : Reserve(n)
        \/ \E n1 \in 1..2, g1 \in 0..1, n2 \in 0..1, g2 \in 0..1 : WriteRef(n1, g1, n2, g2)
        \/ \E n \in 1..rsize, r \in BOOLEAN : Consume(n, r)
        \/ Pop
Spec == Init /\ [][Next]_vars
Bound == Len(ch) <= MaxBufs /\ model <= MaxBytes
RECURSIVE Cat(_)
Cat(c) == IF c = <<>> THEN <<>> ELSE Head(c).d \o Cat(Tail(c))
RECURSIVE FreeFrom(_, _)
FreeFrom(c, i) == IF i > Len(c) THEN 0 ELSE c[i].f + FreeFrom(c, i + 1)
\* The stream is a FIFO: its bytes, in order.
Fifo == Cat(ch) = Num(0, model) /\ rsize = model
\* The writable size is the free space from the write position on; nothing readable behind it.
Room == /\ wsize = (IF wpos = 0 THEN 0 ELSE FreeFrom(ch, wpos))
        /\ wpos # 0 => /\ wpos \in DOMAIN ch /\ ch[wpos].f > 0
                       /\ \A i \in DOMAIN ch : i > wpos => ch[i].d = <<>> /\ ch[i].f > 0
        /\ wpos = 0 /\ ch # <<>> => Full(ch[Len(ch)]) \/ wsize > 0
\* The readable prefix ends at rend and is contiguous.
REnd == /\ (rend = 0) = (rsize = 0)
        /\ rend # 0 => /\ rend \in DOMAIN ch
                       /\ \A i \in DOMAIN ch : (i <= rend) = (ch[i].d # <<>>)
                       /\ wpos # 0 => wpos \in {rend, rend + 1}
NonEmpty == ch # <<>> => rsize > 0 \/ wsize > 0
=============================================================================
