--------------------------- MODULE CalendarRange ---------------------------
(* C01.  Constructions around and beyond the representable range: a day is valid exactly when its
   serial is representable; x = 0 stands for "invalid". *)
EXTENDS CalLib, Emit
VARIABLE q
Expect(n) == IF Representable(n) THEN n ELSE 0
Years == 1901..2400
Ymds == {[op |-> "ymd", y |-> y, m |-> m, d |-> d, x |-> Expect(Serial(y, m, d))] :
            y \in Years, m \in 1..12, d \in {1, 6, 7, 28}}
Serials == {[op |-> "xl", n |-> n, x |-> Expect(n)] :
            n \in (-3..3) \cup (25560..25575) \cup (91080..91110) \cup {1000, 20000, 65535, 65536, 131072, 156640, 2000000, -65536, -40000}}
Init == q \in Ymds \cup Serials
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q
Emitted == Emit(q)
=============================================================================
