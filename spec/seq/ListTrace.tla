------------------------------ MODULE ListTrace ------------------------------
EXTENDS Lst, Trc
vars == <<ls, trcVars>>
Init == TrcInit /\ LstInit
Obs == \A i \in 1..NL : LET o == Ev.st[i] IN
           /\ Shows(i, o.s, o.f, o.z, o.em)
           /\ TCfg.d = 1 => o.b = Rev(ls'[i])
Next ==
    /\ Consume
    /\ CASE Ev.e = "app" -> Append_(Ev.l, Ev.x) /\ Obs
         [] Ev.e = "pre" -> Prepend(Ev.l, Ev.x) /\ Obs
         [] Ev.e = "appl" -> AppendList(Ev.l, Ev.o) /\ Obs
         [] Ev.e = "prel" -> PrependList(Ev.l, Ev.o) /\ Obs
         [] Ev.e = "ins" -> Insert(Ev.l, Ev.x[1], Ev.x[2]) /\ Obs
         [] Ev.e = "rm" -> Remove(Ev.l, Ev.x[1]) /\ Obs
         [] Ev.e = "rev" -> Reverse(Ev.l) /\ Obs
         [] Ev.e = "clr" -> Clear(Ev.l) /\ Obs
         [] Ev.e = "popall" -> /\ Clear(Ev.l) /\ Ev.ret = ls[Ev.l]
                               /\ Ev.last # -1 => Ev.last = (IF ls[Ev.l] = <<>> THEN 0 ELSE ls[Ev.l][Len(ls[Ev.l])])
                               /\ Obs
         [] Ev.e = "popf" -> PopFirst(Ev.l, Ev.ret[1]) /\ Obs
         [] Ev.e = "popl" -> PopLast(Ev.l, Ev.ret[1]) /\ Obs
         [] Ev.e = "mov" -> Move(Ev.l, Ev.o) /\ Obs
         [] Ev.e = "ctor" -> ls' = [ls EXCEPT ![Ev.l] = Ev.x] /\ Obs
         [] Ev.e = "sel" -> Select(Ev.l, Ev.o, Ev.x) /\ Obs
         [] Ev.e = "end" -> UNCHANGED ls
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
