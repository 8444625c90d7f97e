------------------------------ MODULE HeapTrace ------------------------------
EXTENDS Heap, Trc
vars == <<h, top, trcVars>>
Init == TrcInit /\ HeapInit
Obs == /\ Shown(TCfg.max = 1, Ev.n, Ev.t)
       /\ top' # 0 => Ev.tk = h'[top']
       /\ TCfg.intr = 1 => Positions(Ev.ix)
Next ==
    /\ Consume
    /\ CASE Ev.e = "new" -> UNCHANGED h /\ Obs
         [] Ev.e = "res" -> UNCHANGED h /\ Obs /\ Ev.ret = 1
         [] Ev.e = "push" -> Push(Ev.id, Ev.k) /\ Obs
         [] Ev.e = "upd" -> Update(Ev.id, Ev.k) /\ Obs
         [] Ev.e = "rm" -> Remove(Ev.id) /\ Obs
         [] Ev.e \in {"pop", "rmtop"} -> PopTop(Ev.id, Ev.ret) /\ Obs
         [] Ev.e = "end" -> h = <<>> /\ UNCHANGED <<h, top>>
         [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
=============================================================================
