----------------------------- MODULE MonthArith -----------------------------
(* C02.  Month arithmetic as a machine: a state is a date, a step shifts it by k months.
   Every date of the years in Years is an initial state; the shifted dates are emitted as the
   expected observation.  A result is compared only when its whole month is representable. *)
EXTENDS CalLib, Emit
CONSTANTS Years, Shifts, AllDays
VARIABLE dt

Days(y, m) == IF AllDays THEN 1..DIM(y, m) ELSE {1, 2, 15, 27} \cup {x \in 28..31 : x <= DIM(y, m)}
Dates == UNION {{Dt(y, m, d) : d \in Days(y, m)} : y \in Years, m \in 1..12}
Ok(n) == n >= MinSerial /\ n <= Serial(2149, 5, 1) - 1
Inside(x) == Ok(SerialOf(x))
Val(x) == IF Inside(x) THEN SerialOf(x) ELSE -1

Root == Dt(0, 1, 1)
Init == dt = Root
Next == dt = Root /\ dt' \in {x \in Dates : Inside(x)}
Spec == Init /\ [][Next]_dt

MonthNo(x) == 12 * x.y + x.m - 1
\* what month addition means, stated without the formula
Correct(x, k, eom, r) ==
    /\ MonthNo(r) = MonthNo(x) + k
    /\ r.d \in 1..DIM(r.y, r.m)
    /\ (eom /\ IsEom(x)) => IsEom(r)
    /\ ~(eom /\ IsEom(x)) => r.d = Min2(x.d, DIM(r.y, r.m))
Lands == dt # Root => \A k \in Shifts : \A e \in BOOLEAN : Correct(dt, k, e, AddMonths(dt, k, e))
\* shifting there and back restores the date unless the day was clipped
Undo == dt # Root => \A k \in Shifts : LET r == AddMonths(dt, k, FALSE) IN r.d = dt.d => AddMonths(r, -k, FALSE) = dt
\* two shifts compose when the first does not clip
Compose == dt # Root => \A k, j \in {-14, -1, 1, 11, 25} : LET r == AddMonths(dt, k, FALSE) IN
              r.d = dt.d => AddMonths(r, j, FALSE) = AddMonths(dt, j + k, FALSE)

ShiftSeq == SetToSeq(Shifts)
Row == [op |-> "months", n |-> SerialOf(dt), k |-> ShiftSeq,
        a |-> [i \in 1..Len(ShiftSeq) |-> Val(AddMonths(dt, ShiftSeq[i], FALSE))],
        e |-> [i \in 1..Len(ShiftSeq) |-> Val(AddMonths(dt, ShiftSeq[i], TRUE))],
        eom |-> SerialOf(EndOfMonth(dt)), dim |-> DIM(dt.y, dt.m), y |-> dt.y, m |-> dt.m,
        nm |-> [p \in {"ANNUAL", "SEMIANNUAL", "QUARTERLY", "MONTHLY", "12M", "6M", "SEMI", "3M", "1M"} |->
                 Val(AddMonths(dt, CASE p \in {"ANNUAL", "12M"} -> 12 [] p \in {"SEMIANNUAL", "SEMI", "6M"} -> 6
                                     [] p \in {"QUARTERLY", "3M"} -> 3 [] OTHER -> 1, FALSE))]]
Emitted == dt # Root => Emit(Row)
=============================================================================
