----------------------------- MODULE StoreHist ------------------------------
(* C21, C22, C25 with several threads.  The repository (a set of objects) and the two global dates as atomic objects:
   TLC searches a linearization of each recorded history of calls and returns; a history with one is printed.
   The global fixings are one set of times per index; W stores one more time (or only it), H reads a set as a sum of 2^t.
   Objects: 1, 2 have the same type and name, 3 the same type and another name, 4 another type. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt
CONSTANTS Hists        \* {[id |-> Nat, ev |-> <<<<"c", thread, op, arg>>, <<"r", thread, op, result>>, ...>>]}
Threads == 1..3
VARIABLES h, i, st, dates, fix, pend
vars == <<h, i, st, dates, fix, pend>>
Idle == [st |-> "idle", op |-> "", a |-> 0]
Init == h \in Hists /\ i = 1 /\ st = {} /\ dates = [k \in 0..1 |-> 1] /\ fix = [k \in 0..1 |-> {}] /\ pend = [t \in Threads |-> Idle]
Ev == h.ev
E == Ev[i]
Call == /\ i <= Len(Ev) /\ E[1] = "c" /\ pend[E[2]].st = "idle"
        /\ pend' = [pend EXCEPT ![E[2]] = [st |-> "called", op |-> E[3], a |-> E[4]]] /\ i' = i + 1 /\ UNCHANGED <<h, st, dates, fix>>
Ret ==  /\ i <= Len(Ev) /\ E[1] = "r" /\ pend[E[2]].st = "done" /\ pend[E[2]].op = E[3] /\ pend[E[2]].a = E[4]
        /\ pend' = [pend EXCEPT ![E[2]] = Idle] /\ i' = i + 1 /\ UNCHANGED <<h, st, dates, fix>>
Done(t, r) == pend' = [pend EXCEPT ![t] = [st |-> "done", op |-> @.op, a |-> r]]
Type(o) == IF o = 4 THEN 2 ELSE 1
SameName(a, b) == Type(a) = Type(b) /\ (a <= 2) = (b <= 2)
Bits(S) == (IF 0 \in S THEN 1 ELSE 0) + (IF 1 \in S THEN 2 ELSE 0) + (IF 2 \in S THEN 4 ELSE 0)
Effect(t) == LET o == pend[t].op a == pend[t].a IN
    CASE o = "A" -> LET x == a \div 10 p == a % 10
                        gone == CASE p = 0 -> {} [] p = 3 -> {y \in st : Type(y) = Type(x)} [] OTHER -> {y \in st : SameName(y, x)}
                    IN st' = (st \ gone) \cup {x} /\ UNCHANGED <<dates, fix>> /\ Done(t, 0)
      [] o = "F" -> UNCHANGED <<st, dates, fix>> /\ Done(t, IF a \in st THEN 1 ELSE 0)
      [] o = "X" -> st' = st \ {a} /\ UNCHANGED <<dates, fix>> /\ Done(t, IF a \in st THEN 1 ELSE 0)
      [] o = "E" -> st' = {} /\ UNCHANGED <<dates, fix>> /\ Done(t, Cardinality(st))
      [] o = "S" -> UNCHANGED <<st, dates, fix>> /\ Done(t, Cardinality(st))
      [] o = "D" -> dates' = [dates EXCEPT ![a \div 100] = a % 100] /\ UNCHANGED <<st, fix>> /\ Done(t, 0)
      [] o = "G" -> UNCHANGED <<st, dates, fix>> /\ Done(t, dates[a])
      [] o = "W" -> LET k == a \div 100 s == (IF (a \div 10) % 10 = 1 THEN fix[k] ELSE {}) \cup {a % 10} IN
                    fix' = [fix EXCEPT ![k] = s] /\ UNCHANGED <<st, dates>> /\ Done(t, Cardinality(s))
      [] o = "H" -> UNCHANGED <<st, dates, fix>> /\ Done(t, Bits(fix[a]))
Needed == IF i > Len(Ev) THEN TRUE ELSE E[1] = "r"
Lin == Needed /\ \E t \in Threads : pend[t].st = "called" /\ Effect(t) /\ UNCHANGED <<h, i>>
Next == Call \/ Ret \/ Lin
Spec == Init /\ [][Next]_vars
Emitted == (i > Len(Ev) /\ \A t \in Threads : pend[t].st = "idle") => Emit([h |-> h.id])
=============================================================================
