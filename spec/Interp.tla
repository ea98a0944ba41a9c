------------------------------- MODULE Interp -------------------------------
(* C27.  Linear interpolation in one and two dimensions on integer knots, at quarter points: the point is brought
   into the range, then the corner values are weighted (exact fractions). *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS XKnots, YKnots, Vals, Sample
VARIABLES x, y, f
vars == <<x, y, f>>
Init == /\ x \in XKnots /\ y \in YKnots
        /\ IF Sample = 0 THEN f \in [(1..Len(x)) \X (1..Len(y)) -> Vals] ELSE f \in RandomSubset(Sample, [(1..Len(x)) \X (1..Len(y)) -> Vals])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* cell of a point p/4 and its position in it: <<cell, numerator, denominator>>
Clip(p, k) == IF p <= 4 * k[1] THEN 4 * k[1] ELSE IF p >= 4 * k[Len(k)] THEN 4 * k[Len(k)] ELSE p
Cell(p, k) == LET q == Clip(p, k) j == IF Len(k) = 1 THEN 1 ELSE CHOOSE j \in 1..(Len(k) - 1) : 4 * k[j] <= q /\ q <= 4 * k[j + 1] IN
              IF Len(k) = 1 THEN <<1, 0, 1>> ELSE <<j, q - 4 * k[j], 4 * (k[j + 1] - k[j])>>
At(j, i) == f[<<IF j > Len(x) THEN Len(x) ELSE j, IF i > Len(y) THEN Len(y) ELSE i>>]
Value(px, py) == LET a == Cell(px, x) b == Cell(py, y) IN
    <<(a[3] - a[2]) * (b[3] - b[2]) * At(a[1], b[1]) + (a[2] * (b[3] - b[2]) * At(a[1] + 1, b[1])) + ((a[3] - a[2]) * b[2] * At(a[1], b[1] + 1)) + (a[2] * b[2] * At(a[1] + 1, b[1] + 1)), a[3] * b[3]>>
Pts(k) == [j \in 1..(4 * (k[Len(k)] - k[1]) + 9) |-> 4 * k[1] - 5 + j]
Reproduces == \A j \in 1..Len(x), i \in 1..Len(y) : LET v == Value(4 * x[j], 4 * y[i]) IN v[1] = f[<<j, i>>] * v[2]
Emitted == Emit([x |-> x, y |-> y, f |-> [j \in 1..Len(x) |-> [i \in 1..Len(y) |-> f[<<j, i>>]]], v |-> [a \in 1..Len(Pts(x)) |-> [b \in 1..Len(Pts(y)) |-> Value(Pts(x)[a], Pts(y)[b])]]])
=============================================================================
