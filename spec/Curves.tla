------------------------------- MODULE Curves -------------------------------
(* C27.  Piecewise constant and linear functions of the date.  Dates are integers, knots increasing; the integral is
   the sum of the daily areas.  Values are integers, and gaps between knots divide Gap, so that every value of a
   piecewise linear function is a multiple of 1/Gap and every daily area one of 1/(2 Gap). *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS KnotSets, Vals, Span, Gap, Sample
VARIABLES k, l, r
vars == <<k, l, r>>
N == Len(k)
Init == IF Sample = 0 THEN k \in KnotSets /\ l \in [1..Len(k) -> Vals] /\ r \in [1..Len(k) -> Vals]
        ELSE k \in KnotSets /\ l \in RandomSubset(Sample, [1..Len(k) -> Vals]) /\ r \in RandomSubset(Sample, [1..Len(k) -> Vals])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Dates == (k[1] - Span)..(k[N] + Span)
Lst(d) == Cardinality({j \in 1..N : k[j] <= d})          \* last knot on or before d, 0 if none
\* constant: right values, nothing before the first knot
CF(d) == IF Lst(d) = 0 THEN 0 ELSE r[Lst(d)]
RECURSIVE Sum(_, _, _)
Sum(f(_), a, b) == IF a >= b THEN 0 ELSE f(a) + Sum(f, a + 1, b)          \* over [a, b)
Signed(f(_), d) == IF d >= k[1] THEN Sum(f, k[1], d) ELSE -Sum(f, d, k[1])
CI(d) == Signed(CF, d)
\* linear, times Gap: value from the right and from the left; flat outside
Mix(j, d) == r[j] * Gap + ((Gap \div (k[j + 1] - k[j])) * (d - k[j]) * (l[j + 1] - r[j]))
VR(d) == IF Lst(d) = 0 THEN l[1] * Gap ELSE IF Lst(d) = N THEN r[N] * Gap ELSE Mix(Lst(d), d)
VL(d) == LET j == Cardinality({i \in 1..N : k[i] < d}) IN IF j = 0 THEN l[1] * Gap ELSE IF j = N THEN r[N] * Gap ELSE Mix(j, d)
Area(d) == VR(d) + VL(d + 1)
LI(d) == Signed(Area, d)                                    \* times 2 Gap
\* at a knot the two values are the knot's, and between knots they agree
Knots == \A j \in 1..N : VL(k[j]) = l[j] * Gap /\ VR(k[j]) = r[j] * Gap
Smooth == \A d \in Dates : d \notin {k[j] : j \in 1..N} => VL(d) = VR(d)
Additive == \A d \in Dates : d < k[N] + Span => LI(d + 1) - LI(d) = VR(d) + VL(d + 1) /\ CI(d + 1) - CI(d) = CF(d)
Tab(f(_)) == [j \in 1..Cardinality(Dates) |-> f(k[1] - Span + j - 1)]
Emitted == Emit([k |-> k, l |-> l, r |-> r, cf |-> Tab(CF), ci |-> Tab(CI), vr |-> Tab(VR), vl |-> Tab(VL), li |-> Tab(LI)])
=============================================================================
