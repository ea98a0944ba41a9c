----------------------------- MODULE QueueHist -----------------------------
(* C16.  The concurrent queue as an atomic object: a FIFO with an interruption flag.  Given histories of calls
   and returns recorded from the code, TLC searches a linearization of each; a history with one is printed. *)
EXTENDS Emit, Integers, SequencesExt
CONSTANTS Hists        \* {[id |-> Nat, ev |-> <<<<"c", thread, op, arg>>, <<"r", thread, op, result>>, ...>>, stuck |-> BOOLEAN]}
Threads == 1..4
VARIABLES h, i, q, intr, pend
vars == <<h, i, q, intr, pend>>
Idle == [st |-> "idle", op |-> "", a |-> 0]
Init == h \in Hists /\ i = 1 /\ q = <<>> /\ intr = FALSE /\ pend = [t \in Threads |-> Idle]
Ev == h.ev
E == Ev[i]
Call == /\ i <= Len(Ev) /\ E[1] = "c"
        /\ pend[E[2]].st = "idle"
        /\ pend' = [pend EXCEPT ![E[2]] = [st |-> "called", op |-> E[3], a |-> E[4]]]
        /\ i' = i + 1 /\ UNCHANGED <<h, q, intr>>
Ret ==  /\ i <= Len(Ev) /\ E[1] = "r"
        /\ pend[E[2]].st = "done" /\ pend[E[2]].op = E[3] /\ pend[E[2]].a = E[4]
        /\ pend' = [pend EXCEPT ![E[2]] = Idle]
        /\ i' = i + 1 /\ UNCHANGED <<h, q, intr>>
Done(t, r) == pend' = [pend EXCEPT ![t] = [st |-> "done", op |-> @.op, a |-> r]]
Effect(t) == LET o == pend[t].op IN
    CASE o = "P" -> q' = Append(q, pend[t].a) /\ UNCHANGED intr /\ Done(t, 0)
      [] o = "T" -> \/ q = <<>> /\ UNCHANGED <<q, intr>> /\ Done(t, -1)
                    \/ intr /\ UNCHANGED <<q, intr>> /\ Done(t, -1)
                    \/ q # <<>> /\ q' = Tail(q) /\ UNCHANGED intr /\ Done(t, q[1])
      [] o = "O" -> \/ intr /\ UNCHANGED <<q, intr>> /\ Done(t, -1)
                    \/ ~intr /\ q # <<>> /\ q' = Tail(q) /\ UNCHANGED intr /\ Done(t, q[1])
      [] o = "I" -> intr' = TRUE /\ UNCHANGED q /\ Done(t, 0)
      [] o = "R" -> intr' = FALSE /\ UNCHANGED q /\ Done(t, 0)
      [] o = "C" -> q' = <<>> /\ UNCHANGED intr /\ Done(t, 0)
      [] o = "E" -> UNCHANGED <<q, intr>> /\ Done(t, IF q = <<>> THEN 1 ELSE 0)
\* effects may be delayed until a return (or the end) needs them
Needed == IF i > Len(Ev) THEN TRUE ELSE E[1] = "r"
Lin == Needed /\ \E t \in Threads : pend[t].st = "called" /\ Effect(t) /\ UNCHANGED <<h, i>>
Next == Call \/ Ret \/ Lin
Spec == Init /\ [][Next]_vars
\* at the end only pops on an empty, uninterrupted queue may still be waiting
Legal == IF h.stuck THEN \A t \in Threads : pend[t].st = "idle" \/ (pend[t].st = "called" /\ pend[t].op = "O" /\ q = <<>> /\ ~intr)
         ELSE \A t \in Threads : pend[t].st = "idle"
Accepted == i > Len(Ev) /\ Legal
Emitted == Accepted => Emit([h |-> h.id])
=============================================================================
