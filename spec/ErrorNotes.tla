----------------------------- MODULE ErrorNotes -----------------------------
(* C36.  Notes in force.  Each thread holds a stack of open scopes; entering a scope puts a note in force, leaving it or being unwound by an error takes it away.
   A note refers to a variable of its scope, so an error reports the value the variable has when it is raised.  An error raised in a thread lists the notes of that
   thread, outermost first, and unwinds to the scope that catches it. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Threads, Kinds, Vals, MaxDepth, MaxOps, R
VARIABLES st, hist
vars == <<st, hist>>
Pick(S) == IF R = 0 THEN S ELSE RandomSubset(1, S)
Init == st = [t \in Threads |-> <<>>] /\ hist = <<>>
Log(t, op, k, v, d) == hist' = Append(hist, [t |-> t, op |-> op, k |-> k, v |-> v, d |-> d, notes |-> st[t]])
Enter(t, k, v) == Len(st[t]) < MaxDepth /\ st' = [st EXCEPT ![t] = Append(@, [k |-> k, v |-> v, id |-> Len(hist)])] /\ Log(t, "enter", k, v, 0)
Leave(t) == st[t] # <<>> /\ st' = [st EXCEPT ![t] = Front(@)] /\ Log(t, "leave", "", 0, 0)
Set(t, v) == st[t] # <<>> /\ st[t][Len(st[t])].k \in {"int", "double", "string", "date"} /\ st' = [st EXCEPT ![t][Len(st[t])].v = v] /\ Log(t, "set", "", v, 0)
Raise(t, k, d) == d <= Len(st[t]) /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, d)] /\ Log(t, k, "", 0, d)      \* caught with d scopes left
Next == /\ Len(hist) < MaxOps
        /\ \E t \in Pick(Threads), w \in Pick(1..10) :
           CASE w \in 1..5 -> \E k \in Pick(Kinds), v \in Pick(Vals) : Enter(t, k, v)
             [] w \in 6..7 -> \E k \in Pick({"throw", "require", "assure", "script"}), d \in Pick(0..Len(st[t])) : Raise(t, k, d)
             [] w = 8 -> Raise(t, "fine", Len(st[t]))
             [] w = 9 -> \E v \in Pick(Vals) : Set(t, v)
             [] OTHER -> Leave(t)
Spec == Init /\ [][Next]_vars
Last3 == hist[Len(hist)]
(* an error of one thread leaves the others' notes alone, and never leaves more notes than there were *)
Apart == [][\A t \in Threads : t # hist'[Len(hist')].t => st'[t] = st[t]]_vars
Shrinks == [][hist'[Len(hist')].op \in {"throw", "require", "assure", "script"} => IsPrefix(st'[hist'[Len(hist')].t], st[hist'[Len(hist')].t])]_vars
Open == \A t \in Threads : \A i \in 1..(Len(st[t]) - 1) : st[t][i].id < st[t][i + 1].id
Emitted == Len(hist) = MaxOps => Emit([h |-> hist])
=============================================================================
