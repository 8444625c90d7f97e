------------------------------ MODULE ChnTrace ------------------------------
EXTENDS Chn, Trc
N == INSTANCE Num64 WITH B <- 65536
vars == <<chnvars, trcVars>>
Init == TrcInit /\ ChnInit
Obs == /\ \A i \in 1..NL : LET o == Ev.st[i] IN /\ o.c = Norm(ls'[i])
                                                /\ o.em = 1 => Norm(ls'[i]) = <<>>
       /\ \A c \in DOMAIN own' : Ev.own[c] = (IF c \in here' THEN Norm(own'[c]) ELSE <<>>)
RECURSIVE Pieces(_, _)
\* The pieces <<offset, length>> follow each other; the number where they end.
Pieces(p, at) == IF p = <<>> THEN at
                 ELSE IF Head(p)[1] # at \/ Head(p)[2] = N!Zero THEN <<0, 0, 0, 0, 0>>
                 ELSE Pieces(Tail(p), N!Add(at, Head(p)[2]).v)
Next ==
    /\ Consume
    /\ CASE Ev.e = "mk" -> Make(Ev.c, Ev.b) /\ Obs
         [] Ev.e = "ref" -> Ref(Ev.l, Ev.c, Ev.x) /\ Obs
         [] Ev.e = "add" -> Add(Ev.l, Ev.b) /\ UNCHANGED <<own, here>> /\ Obs
         [] Ev.e = "lnk" -> Add(Ev.l, Cat(Ev.b)) /\ UNCHANGED <<own, here>> /\ Obs
         [] Ev.e = "app" -> Splice(Ev.l, Ev.c) /\ Obs
         [] Ev.e = "vec" -> Keep /\ Gathered(ls[Ev.l], Ev.runs, Ev.x, Ev.k, Ev.full) /\ Obs
         [] Ev.e = "vecc" -> Keep /\ Gathered(own[Ev.c], Ev.runs, Ev.x, Ev.k, Ev.full) /\ Obs
         [] Ev.e = "ivp" -> /\ Keep /\ Obs
                            \* What remains of the vectors is the same as what they had without the first k bytes.
                            /\ LET t == Norm(DropB(Norm(ls[Ev.l]), Ev.k)) IN Ev.runs = Norm(TakeB(t, Bytes(Ev.runs)))
                            /\ Tr[l - 1].e = "vec" /\ Bytes(Ev.runs) = Bytes(Tr[l - 1].runs) - Ev.k
         [] Ev.e = "skip" -> Skip(Ev.l, Ev.k) /\ Obs
         [] Ev.e = "sep" -> Keep /\ Obs /\ Ev.st[Ev.l].em = (IF Norm(ls[Ev.l]) = <<>> THEN 1 ELSE 0)
         [] Ev.e = "cp" -> Keep /\ Obs /\ Ev.runs = Norm(ls[Ev.l])
         [] Ev.e = "cpc" -> Keep /\ Obs /\ Ev.runs = Norm(own[Ev.c])
         [] Ev.e = "cpl" -> Keep /\ Obs /\ Ev.runs = Norm(Cat(Ev.b))
         [] Ev.e = "drop" -> Drop(Ev.c) /\ Obs
         [] Ev.e = "clr" -> Clear(Ev.l) /\ Obs /\ Ev.st[Ev.l].em = 1
         [] Ev.e = "por" -> Keep /\ Obs /\ Ev.runs = Norm(DropB(Ev.b, Ev.k))
         [] Ev.e = "pow" -> Keep /\ Obs /\ Ev.runs = Norm(Ev.b)
         [] Ev.e = "big" -> Keep /\ Pieces(Ev.p, N!Zero) = Ev.n
         [] Ev.e = "end" -> Keep /\ Ev.k = 0
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
