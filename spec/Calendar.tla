------------------------------ MODULE Calendar ------------------------------
(* C01.  The calendar as a transition system: one day per step from the first to the last
   representable day.  The invariants tie the closed forms of CalLib to the stepping, and every
   visited day is emitted as an expected row for the implementation. *)
EXTENDS CalLib, Emit, Naturals
VARIABLES n, y, m, d, w
vars == <<n, y, m, d, w>>

Row == [op |-> "day", n |-> n, y |-> y, m |-> m, d |-> d, w |-> w,
        last |-> (n = MaxSerial), eom |-> Serial(y, m, DIM(y, m)), dim |-> DIM(y, m)]

Init == n = MinSerial /\ y = 1970 /\ m = 1 /\ d = 1 /\ w = 4
Tomorrow ==
    /\ n < MaxSerial
    /\ n' = n + 1
    /\ w' = IF w = 6 THEN 0 ELSE w + 1
    /\ IF d < DIM(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
       ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
       ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Next == Tomorrow
Spec == Init /\ [][Next]_vars

ClosedForm == Serial(y, m, d) = n
RoundTrip == Civil(n) = Dt(y, m, d)
WeekdayForm == Dow(n) = w
Emitted == Emit(Row)
=============================================================================
