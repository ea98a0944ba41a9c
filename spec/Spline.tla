------------------------------- MODULE Spline -------------------------------
(* C27.  Cubic splines: every twice continuously differentiable piecewise cubic is a cubic plus multiples of the
   truncated cubes at the inner knots, and it is the only spline through its own knot values with its own end
   conditions (first, second or third derivative).  Integer coefficients make everything exact. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS KnotSets, Coef, Sample
VARIABLES k, c, t, bl, br
vars == <<k, c, t, bl, br>>
Init == /\ k \in KnotSets /\ c \in RandomSubset(Sample, [0..3 -> Coef]) /\ t \in RandomSubset(Sample, [2..(Len(k) - 1) -> Coef])
        /\ bl \in 1..3 /\ br \in 1..3
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(g(_), S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN g(j) + Sum(g, S \ {j})
\* at p/4, times 64
Plus(j, p) == IF p <= 4 * k[j] THEN 0 ELSE (p - (4 * k[j])) * (p - (4 * k[j])) * (p - (4 * k[j]))
V(p) == 64 * c[0] + (16 * c[1] * p) + (4 * c[2] * p * p) + (c[3] * p * p * p) + Sum(LAMBDA j : t[j] * Plus(j, p), 2..(Len(k) - 1))
\* derivatives at a knot (integers)
Dist(j, z) == IF z <= k[j] THEN 0 ELSE z - k[j]
D(o, z) == CASE o = 1 -> c[1] + (2 * c[2] * z) + (3 * c[3] * z * z) + Sum(LAMBDA j : 3 * t[j] * Dist(j, z) * Dist(j, z), 2..(Len(k) - 1))
             [] o = 2 -> (2 * c[2]) + (6 * c[3] * z) + Sum(LAMBDA j : 6 * t[j] * Dist(j, z), 2..(Len(k) - 1))
             [] OTHER -> 6 * c[3] + Sum(LAMBDA j : IF z > k[j] THEN 6 * t[j] ELSE 0, 2..(Len(k) - 1))
Emitted == Emit([k |-> k, f |-> [j \in 1..Len(k) |-> V(4 * k[j]) \div 64], bl |-> <<bl, D(bl, k[1])>>, br |-> <<br, D(br, k[Len(k)])>>,
                 v |-> [j \in 1..(4 * (k[Len(k)] - k[1]) + 1) |-> V(4 * k[1] + j - 1)]])
=============================================================================
