------------------------------ MODULE Spelling ------------------------------
(* C24.  How text is compared: without regard to case, and for names of settings also without blanks, tabs and
   underscores.  Successive names never repeat. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt
CONSTANTS Chars, MaxLen
VARIABLES s, t
Strs == UNION {[1..n -> 1..Len(Chars)] : n \in 0..MaxLen}
Condense(k) == FoldLeft(LAMBDA a, i : IF Chars[i].up = "" THEN a ELSE Append(a, Chars[i].up), <<>>, k)
Fold(k) == [i \in 1..Len(k) |-> Chars[k[i]].fold]
Init == s \in Strs /\ t \in Strs
Next == UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_<<s, t>>
\* condensing is idempotent on spellings and finer than comparing
Sound == Fold(s) = Fold(t) => Condense(s) = Condense(t)
Emitted == Emit([s |-> s, t |-> t, same |-> Fold(s) = Fold(t), c |-> Condense(s), eqv |-> Condense(s) = Condense(t), pure |-> Condense(t) = Fold(t)])
=============================================================================
