------------------------------ MODULE DayCount ------------------------------
(* C04.  Day-count conventions, stated as rules on (from, to[, coupon context]) with exact
   numerators and denominators. *)
EXTENDS CalLib, Emit
CONSTANTS Years, Md, Span
VARIABLES a, b

Dates == {x \in {Dt(y, md[1], md[2]) : y \in Years, md \in Md} : x.d <= DIM(x.y, x.m)}
Nr(x) == SerialOf(x)

\* ACT/ACT (ISDA): days falling in leap years over 366 plus the other days over 365.
\* A day [d, d+1) belongs to the year of d.
RECURSIVE InYears(_, _, _)
InYears(p, q, leap) ==      \* p, q serials with p <= q
    IF p >= q THEN 0
    ELSE LET y == Civil(p).y
             e == Min2(q, Serial(y + 1, 1, 1))
         IN (IF Leap(y) = leap THEN e - p ELSE 0) + InYears(e, q, leap)
\* 30/360 US
LastFeb(x) == x.m = 2 /\ IsEom(x)
Thirty(p, q) ==
    LET d1 == IF LastFeb(p) THEN 30 ELSE p.d
        d2 == IF LastFeb(p) /\ LastFeb(q) THEN 30 ELSE q.d
        e2 == IF d2 = 31 /\ d1 >= 30 THEN 30 ELSE d2
        e1 == IF d1 = 31 THEN 30 ELSE d1
    IN 360 * (q.y - p.y) + 30 * (q.m - p.m) + (e2 - e1)
\* ACT/365L, annual coupons: 366 iff a 29 February lies in (from, end]
HasFeb29(p, e) == \E y \in Civil(p).y .. Civil(e).y : Leap(y) /\ Serial(y, 2, 29) > p /\ Serial(y, 2, 29) <= e
DivL(p, e, annual) == IF annual THEN (IF HasFeb29(p, e) THEN 366 ELSE 365) ELSE YearLen(Civil(e).y)

Ends == {Nr(b), Nr(AddMonths(b, 1, FALSE)), Nr(AddMonths(b, 7, FALSE)), Nr(b) + 1}
Far == {Dt(1999, 1, 1), Dt(2000, 2, 29), Dt(2003, 12, 31)}
Init == a \in Dates /\ b = a
Pick == b = a /\ a' = a /\ b' \in {x \in Dates : Nr(a) < Nr(x) /\ (Nr(x) - Nr(a) <= Span \/ a \in Far)}
Next == Pick
Spec == Init /\ [][Next]_<<a, b>>

\* sanity of the rules
Days == Nr(b) - Nr(a)
Split == InYears(Nr(a), Nr(b), TRUE) + InYears(Nr(a), Nr(b), FALSE) = Days
\* 30/360 is within the clipping slack of the real number of 30-day months
ThirtyNear == LET t == Thirty(a, b) - 30 * (12 * (b.y - a.y) + b.m - a.m) IN t >= -29 /\ t <= 30
WholeYears == (a.m = b.m /\ a.d = b.d /\ a.m # 2) => Thirty(a, b) = 360 * (b.y - a.y)
Same == a = b => (Thirty(a, b) = 0 /\ Days = 0)

Row == [op |-> "basis", n1 |-> Nr(a), n2 |-> Nr(b), days |-> Days, l |-> InYears(Nr(a), Nr(b), TRUE),
        t |-> Thirty(a, b),
        ctx |-> SetToSeq({[e |-> e, m |-> m, div |-> DivL(Nr(a), e, m = 12)] : e \in Ends, m \in {12, 6}})]
Emitted == Emit(Row)
=============================================================================
