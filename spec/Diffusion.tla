------------------------------ MODULE Diffusion ------------------------------
(* Values on a line of nodes rolled back in time.  On three neighbouring nodes there is exactly one quadratic; its slope and curvature at the middle node are
   the differences the library must use, so that L v = mu v' + var v'' / 2 - r v is exact on quadratics.  A step of length dt with implicitness theta takes
   u with (1 - theta dt L) u = (1 + (1 - theta) dt L) v inside, and u = v at the two ends.  Everything is in whole numbers over common denominators. *)
EXTENDS Emit, Integers, FiniteSetsExt, SequencesExt, Randomization
CONSTANTS Gaps, Sizes, Mus, Vars, Rates, Vals, R
VARIABLES g, mu, va, ra, v, done
vars == <<g, mu, va, ra, v, done>>
Pick(m, S) == IF R = 0 THEN [1..m -> S] ELSE {TLCEval([i \in 1..m |-> RandomElement(S)])}
Init == g = <<>> /\ mu = <<>> /\ va = <<>> /\ ra = <<>> /\ v = <<>> /\ done = 0
Load ==
  /\ done = 0
  /\ \E n \in (IF R = 0 THEN Sizes ELSE RandomSubset(1, Sizes)) : \E gaps \in Pick(n - 1, Gaps), x \in (IF R = 0 THEN {0} ELSE RandomSubset(1, -9..9)), m \in Pick(n, Mus), s \in Pick(n, Vars), r \in Pick(n, Rates), w \in Pick(n, Vals) :
       /\ g' = FoldLeft(LAMBDA acc, d : Append(acc, acc[Len(acc)] + d), <<x>>, gaps)
       /\ mu' = m /\ va' = s /\ ra' = r /\ v' = w
  /\ done' = 1
Again == R # 0 /\ done \in 1..(R - 1) /\ done' = done + 1
         /\ \E m \in Pick(Len(g), Mus), w \in Pick(Len(g), Vals) : mu' = m /\ v' = w
         /\ UNCHANGED <<g, va, ra>>
Next == Load \/ Again
Spec == Init /\ [][Next]_vars
N == Len(g)
Inner == 2..(N - 1)
(* slope and curvature at node i of the quadratic through i-1, i, i+1, with the numerator over D(i) = a b (a + b) *)
A(i) == g[i] - g[i - 1]
B(i) == g[i + 1] - g[i]
D(i) == A(i) * B(i) * (A(i) + B(i))
Slope(w, i) == (w[i + 1] - w[i]) * A(i) * A(i) + (w[i] - w[i - 1]) * B(i) * B(i)
Curve(w, i) == 2 * ((w[i + 1] - w[i]) * A(i) - (w[i] - w[i - 1]) * B(i))
(* L w at node i times 2 D(i) *)
L(w, i) == 2 * mu[i] * Slope(w, i) + va[i] * Curve(w, i) - 2 * ra[i] * w[i] * D(i)
Ones == [i \in 1..N |-> 1]
Line == g
Square == [i \in 1..N |-> g[i] * g[i]]
Exact ==
  done > 0 => \A i \in Inner :
    /\ D(i) > 0
    /\ Slope(Ones, i) = 0 /\ Slope(Line, i) = D(i) /\ Slope(Square, i) = 2 * g[i] * D(i)
    /\ Curve(Ones, i) = 0 /\ Curve(Line, i) = 0 /\ Curve(Square, i) = 2 * D(i)
(* with no drift, curvature is a spread: pulling every node to the mean of its neighbours, so extremes do not grow *)
Spreads == done > 0 => \A i \in Inner : (v[i] >= v[i - 1] /\ v[i] >= v[i + 1]) => Curve(v, i) <= 0
(* the weights of the three nodes, for the replay *)
Unit(j) == [i \in 1..N |-> IF i = j THEN 1 ELSE 0]
Row(i) == [dx |-> [j \in 1..3 |-> Slope(Unit(i + j - 2), i)], dxx |-> [j \in 1..3 |-> Curve(Unit(i + j - 2), i)], d |-> D(i), lv |-> L(v, i)]
Emitted == done > 0 => Emit([g |-> g, mu |-> mu, va |-> va, ra |-> ra, v |-> v, rows |-> [i \in 1..(N - 2) |-> Row(i + 1)]])
=============================================================================
