-------------------------------- MODULE Cor --------------------------------
(* Coroutines as their users see them. An object (a coroutine reference or a task) k owns a
   stack of frames. Only the top frame executes. A frame which ended gives the control back
   to the one below it. An exit, or the destruction of the object, destroys the frames from
   the top to the bottom, each exactly once. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
    stk,    \* k -> sequence of [f, pc]: frames from the bottom to the top
    fresh,  \* k -> frames created, not started
    dying,  \* k -> frames which ended, not destroyed yet
    ph,     \* k -> "new" | "susp" | "run" | "ret" | "exit" | "cb" | "plain" | "done" | "dest"
    run,    \* k -> the thread executing it
    last,   \* k -> the frame which ended and returns to its caller
    how     \* k -> the kind of exit

cvars == <<stk, fresh, dying, ph, run, last, how>>

CInit(K) ==
    /\ stk = [k \in K |-> <<>>]
    /\ fresh = [k \in K |-> {}]
    /\ dying = [k \in K |-> {}]
    /\ ph = [k \in K |-> "new"]
    /\ run = [k \in K |-> 0]
    /\ last = [k \in K |-> 0]
    /\ how = [k \in K |-> 0]

Top(k) == stk[k][Len(stk[k])]
On(k, f) == Len(stk[k]) > 0 /\ Top(k).f = f
Known(k) == fresh[k] \cup dying[k] \cup {stk[k][i].f : i \in 1..Len(stk[k])}
Nothing(k) == stk[k] = <<>> /\ dying[k] = {}
Executes(k, f, h) == ph[k] = "run" /\ run[k] = h /\ On(k, f)

Create(k, f) ==
    /\ \A j \in DOMAIN stk : f \notin Known(j)
    /\ fresh' = [fresh EXCEPT ![k] = @ \cup {f}]
    /\ UNCHANGED <<stk, dying, ph, run, last, how>>
Destroy(k, f) ==
    /\ \/ /\ f \in dying[k]
          /\ dying' = [dying EXCEPT ![k] = @ \ {f}] /\ UNCHANGED <<stk, fresh>>
       \/ /\ ph[k] \in {"exit", "dest"} /\ On(k, f) /\ dying[k] = {}
          /\ stk' = [stk EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<fresh, dying>>
       \/ /\ ph[k] = "dest" /\ f \in fresh[k]
          /\ fresh' = [fresh EXCEPT ![k] = @ \ {f}] /\ UNCHANGED <<stk, dying>>
    /\ UNCHANGED <<ph, run, last, how>>
\* Goes on where it stopped, or starts.
Resume(k, f, p, h) ==
    /\ IF stk[k] = <<>>
       THEN /\ ph[k] = "new" /\ f \in fresh[k] /\ p = 0
            /\ stk' = [stk EXCEPT ![k] = <<[f |-> f, pc |-> 0]>>]
            /\ fresh' = [fresh EXCEPT ![k] = @ \ {f}]
       ELSE /\ ph[k] = "susp" /\ On(k, f) /\ Top(k).pc = p
            /\ UNCHANGED <<stk, fresh>>
    /\ ph' = [ph EXCEPT ![k] = "run"]
    /\ run' = [run EXCEPT ![k] = h]
    /\ UNCHANGED <<dying, last, how>>
Stmt(k, f, p, h) ==
    /\ Executes(k, f, h) /\ p = Top(k).pc + 1
    /\ stk' = [stk EXCEPT ![k][Len(stk[k])].pc = p]
    /\ UNCHANGED <<fresh, dying, ph, run, last, how>>
Call(k, f, g, h) ==
    /\ Executes(k, f, h) /\ g \in fresh[k]
    /\ stk' = [stk EXCEPT ![k] = Append(@, [f |-> g, pc |-> 0])]
    /\ fresh' = [fresh EXCEPT ![k] = @ \ {g}]
    /\ UNCHANGED <<dying, ph, run, last, how>>
Suspend(k, f, p, h) ==
    /\ Executes(k, f, h) /\ Top(k).pc = p
    /\ ph' = [ph EXCEPT ![k] = "susp"]
    /\ UNCHANGED <<stk, fresh, dying, run, last, how>>
End(k, f, h) ==
    /\ Executes(k, f, h)
    /\ IF Len(stk[k]) > 1
       THEN /\ stk' = [stk EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)]
            /\ dying' = [dying EXCEPT ![k] = @ \cup {f}]
            /\ ph' = [ph EXCEPT ![k] = "ret"]
            /\ last' = [last EXCEPT ![k] = f]
       ELSE ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED <<stk, dying, last>>
    /\ UNCHANGED <<fresh, run, how>>
Return(k, f, g, h) ==
    /\ ph[k] = "ret" /\ run[k] = h /\ On(k, f) /\ last[k] = g
    /\ ph' = [ph EXCEPT ![k] = "run"]
    /\ UNCHANGED <<stk, fresh, dying, run, last, how>>
Exit(k, f, w, h) ==
    /\ Executes(k, f, h)
    /\ ph' = [ph EXCEPT ![k] = "exit"]
    /\ how' = [how EXCEPT ![k] = w]
    /\ UNCHANGED <<stk, fresh, dying, run, last>>
\* The callback given to the exit; it stays the body of the task.
Callback(k, h) ==
    /\ \/ ph[k] = "exit" /\ how[k] = 2 /\ Nothing(k) /\ run[k] = h
       \/ ph[k] = "plain"
    /\ ph' = [ph EXCEPT ![k] = "cb"]
    /\ run' = [run EXCEPT ![k] = h]
    /\ UNCHANGED <<stk, fresh, dying, last, how>>
CbPost(k) == ph[k] = "cb" /\ ph' = [ph EXCEPT ![k] = "plain"] /\ UNCHANGED <<stk, fresh, dying, run, last, how>>
CbEnd(k) == ph[k] = "cb" /\ ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED <<stk, fresh, dying, run, last, how>>
Told(k) ==
    /\ ph[k] = "exit" /\ how[k] = 3 /\ Nothing(k)
    /\ ph' = [ph EXCEPT ![k] = "done"] /\ UNCHANGED <<stk, fresh, dying, run, last, how>>
DestroyAll(k) ==
    /\ ph[k] \in {"new", "susp", "done"}
    /\ ph' = [ph EXCEPT ![k] = "dest"] /\ UNCHANGED <<stk, fresh, dying, run, last, how>>
DestroyedAll(k) ==
    /\ ph[k] = "dest" /\ Nothing(k)
    /\ ph' = [ph EXCEPT ![k] = "new"] /\ UNCHANGED <<stk, fresh, dying, run, last, how>>

----------------------------------------------------------------------------
\* A frame is in one place; only a started, unfinished stack has a suspended or running top.
CTypeOK ==
    \A k \in DOMAIN stk :
      /\ fresh[k] \cap dying[k] = {}
      /\ \A i \in 1..Len(stk[k]) : stk[k][i].f \notin fresh[k] \cup dying[k]
      /\ \A i, j \in 1..Len(stk[k]) : stk[k][i].f = stk[k][j].f => i = j
      /\ ph[k] \in {"run", "susp", "ret"} => stk[k] # <<>>
      /\ ph[k] \in {"cb", "plain"} => Nothing(k)
=============================================================================
