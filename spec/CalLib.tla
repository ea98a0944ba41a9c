------------------------------- MODULE CalLib -------------------------------
(* The proleptic Gregorian calendar, stated from its rules.  A date is a record [y, m, d];
   its serial number is the spreadsheet serial (1970-01-01 = 25569).  Calendar.tla checks these
   definitions against the day-by-day stepping of the calendar for every representable day. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

MinSerial == 25569
MaxSerial == 25568 + 65535            \* the last representable day
MaxDateSerial == 25569 + 65520        \* Date::Maximum()

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DIM(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
               [] m \in {4, 6, 9, 11} -> 30
               [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
YearLen(y) == IF Leap(y) THEN 366 ELSE 365

\* leap years in 1..y
Leaps(y) == y \div 4 - y \div 100 + y \div 400
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DIM(y, m - 1) + DaysBefore(y, m - 1)
Serial(y, m, d) == MinSerial + 365 * (y - 1970) + (Leaps(y - 1) - Leaps(1969)) + DaysBefore(y, m) + d - 1
SerialOf(dt) == Serial(dt.y, dt.m, dt.d)
Representable(n) == n >= MinSerial /\ n <= MaxSerial

RECURSIVE FindYear(_, _)
FindYear(n, y) == IF Serial(y + 1, 1, 1) <= n THEN FindYear(n, y + 1) ELSE y
RECURSIVE FindMonth(_, _, _)
FindMonth(n, y, m) == IF m < 12 /\ Serial(y, m + 1, 1) <= n THEN FindMonth(n, y, m + 1) ELSE m
Civil(n) == LET y == FindYear(n, 1968 + (n - MinSerial) \div 366)
                m == FindMonth(n, y, 1)
            IN [y |-> y, m |-> m, d |-> n - Serial(y, m, 1) + 1]

\* 0 = Sunday; 1970-01-01 was a Thursday
Dow(n) == (n - MinSerial + 4) % 7
Weekend(n) == Dow(n) \in {0, 6}

Dt(y, m, d) == [y |-> y, m |-> m, d |-> d]
IsEom(dt) == dt.d = DIM(dt.y, dt.m)
AddMonths(dt, k, eom) ==
    LET t == 12 * dt.y + (dt.m - 1) + k
        y == t \div 12
        m == (t % 12) + 1
        d == IF (eom /\ IsEom(dt)) \/ dt.d > DIM(y, m) THEN DIM(y, m) ELSE dt.d
    IN Dt(y, m, d)
EndOfMonth(dt) == Dt(dt.y, dt.m, DIM(dt.y, dt.m))
AddDays(dt, k) == Civil(SerialOf(dt) + k)
=============================================================================
