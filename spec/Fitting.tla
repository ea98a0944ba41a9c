------------------------------- MODULE Fitting -------------------------------
(* Two least-square problems told backwards: the answer is chosen first, in whole numbers, and the problem made to have it.
   Smoothing: z minimises sum w (z - y)^2 + lambda sum (z' - z)^2 / (x' - x), where w y = w z - pulls of the neighbours.
   Underdetermined: of all x with J (x - p) = 0, the nearest to the guess in the sense of W (diagonal) is the guess plus W^-1 J^T m for some m. *)
EXTENDS Emit, Integers, FiniteSetsExt, SequencesExt, Randomization
CONSTANTS Sizes, Gaps, Ws, Ls, Zs, Js, Shapes, R
VARIABLES kind, a, n
vars == <<kind, a, n>>
Rnd(m, S) == IF R = 0 THEN [1..m -> S] ELSE {TLCEval([i \in 1..m |-> RandomElement(S)])}
Init == kind = "" /\ a = <<>> /\ n = 0
Lcm == 12                                  \* every gap divides it
Sum(f, S) == FoldSet(LAMBDA i, acc : acc + f[i], 0, S)
Smooth ==
  /\ n < R \/ (R = 0 /\ n = 0)
  /\ \E m \in (IF R = 0 THEN Sizes ELSE RandomSubset(1, Sizes)) : \E gaps \in Rnd(m - 1, Gaps), w \in Rnd(m, Ws), z \in Rnd(m, Zs), l \in (IF R = 0 THEN Ls ELSE RandomSubset(1, Ls)) :
       LET pull == [i \in 1..m |-> (IF i < m THEN l * (Lcm \div gaps[i]) * (z[i + 1] - z[i]) ELSE 0) - (IF i > 1 THEN l * (Lcm \div gaps[i - 1]) * (z[i] - z[i - 1]) ELSE 0)]
           x == FoldLeft(LAMBDA acc, d : Append(acc, acc[Len(acc)] + d), <<0>>, gaps)
       \* w y = w z - pull / Lcm
       IN a' = <<x, w, l, z, [i \in 1..m |-> <<Lcm * w[i] * z[i] - pull[i], Lcm * w[i]>>]>>
  /\ kind' = "smooth" /\ n' = n + 1
Under ==
  /\ n < R \/ (R = 0 /\ n = 0)
  /\ \E s \in (IF R = 0 THEN Shapes ELSE RandomSubset(1, Shapes)) : \E j \in (IF R = 0 THEN [1..s[1] -> [1..s[2] -> Js]] ELSE {TLCEval([i \in 1..s[1] |-> TLCEval([k \in 1..s[2] |-> RandomElement(Js)])])}), w \in Rnd(s[2], {1, 2, 3, 4}), m \in Rnd(s[1], Zs), x \in Rnd(s[2], Zs) :
       \* 12 / w times the pull of the multipliers, and the residual of the guess times 12
       LET step == [k \in 1..s[2] |-> (12 \div w[k]) * Sum([i \in 1..s[1] |-> j[i][k] * m[i]], 1..s[1])]
       IN a' = <<j, w, x, step, [i \in 1..s[1] |-> -Sum([k \in 1..s[2] |-> j[i][k] * step[k]], 1..s[2])]>>
  /\ kind' = "under" /\ n' = n + 1
Next == Smooth \/ Under
Spec == Init /\ [][Next]_vars
(* the pulls of neighbours cancel: weighted means are kept *)
Kept == kind = "smooth" => LET w == a[2] z == a[4] y == a[5] IN Sum([i \in 1..Len(w) |-> y[i][1]], 1..Len(w)) = Sum([i \in 1..Len(w) |-> Lcm * w[i] * z[i]], 1..Len(w))
(* any other solution is further away: steps along the null space are at right angles (in W) to the answer *)
Nearest == kind = "under" =>
  LET j == a[1] w == a[2] s == a[4] k == Len(a[2])
  IN \A d \in (IF k <= 3 THEN [1..k -> {-1, 0, 1}] ELSE {}) : (\A i \in 1..Len(j) : Sum([c \in 1..k |-> j[i][c] * d[c]], 1..k) = 0) => Sum([c \in 1..k |-> w[c] * s[c] * d[c]], 1..k) = 0
Emitted == n > 0 => Emit([kind |-> kind, a |-> a])
=============================================================================
