------------------------------- MODULE Clock -------------------------------
(* C03.  The clock as a machine: one second per step through a whole day.  Each visited second is
   emitted with a millisecond offset that depends on it, so that all offsets 0..999 occur. *)
EXTENDS Emit, Integers
CONSTANTS Day, MsMul
VARIABLES s, hh, mm, ss
vars == <<s, hh, mm, ss>>
Init == s = 0 /\ hh = 0 /\ mm = 0 /\ ss = 0
Tick == /\ s < 86399
        /\ s' = s + 1
        /\ IF ss < 59 THEN ss' = ss + 1 /\ UNCHANGED <<hh, mm>>
           ELSE IF mm < 59 THEN ss' = 0 /\ mm' = mm + 1 /\ hh' = hh
           ELSE ss' = 0 /\ mm' = 0 /\ hh' = hh + 1
Next == Tick
Spec == Init /\ [][Next]_vars
InDay == hh \in 0..23 /\ mm \in 0..59 /\ ss \in 0..59
Elapsed == s = 3600 * hh + 60 * mm + ss
Row == [op |-> "clock", n |-> Day, s |-> s, h |-> hh, m |-> mm, sec |-> ss, off |-> (s * MsMul) % 1000, last |-> (s = 86399)]
Emitted == Emit(Row)
=============================================================================
