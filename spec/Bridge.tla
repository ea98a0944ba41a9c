------------------------------- MODULE Bridge -------------------------------
(* C18.  Construction of a Brownian path at times 1..n from independent standard normals: the terminal value
   first, then points between two already known neighbours, in any order.  A new point is the interpolation
   of its neighbours plus an independent deviate.  Covariances are kept exactly, scaled by D. *)
EXTENDS Emit, Integers, FiniteSets, FiniteSetsExt
CONSTANTS Sizes
VARIABLES n, known, cov, order
vars == <<n, known, cov, order>>
D == 420      \* divisible by every gap up to 7
Neigh(l) == LET L == {m \in known : m < l}
                R == {m \in known : m > l} IN <<IF L = {} THEN 0 ELSE Max(L), Min(R)>>
Cov(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE cov[a][b]
Init == /\ n \in Sizes /\ known = {n} /\ order = <<n>>
        /\ cov = [a \in 1..n |-> [b \in 1..n |-> IF a = n /\ b = n THEN n * D ELSE 0]]
Add(l) == LET q == Neigh(l)
              j == q[1]
              k == q[2]
              With(m) == ((k - l) * Cov(j, m) + (l - j) * Cov(k, m)) \div (k - j)
          IN /\ known' = known \cup {l}
             /\ order' = Append(order, l)
             /\ cov' = [a \in 1..n |-> [b \in 1..n |->
                         IF a = l /\ b = l THEN ((k - l) * With(j) + (l - j) * With(k)) \div (k - j) + (D * (l - j) * (k - l)) \div (k - j)
                         ELSE IF a = l /\ b \in known THEN With(b) ELSE IF b = l /\ a \in known THEN With(a) ELSE cov[a][b]]]
             /\ UNCHANGED n
Next == \E l \in 1..n : l \notin known /\ Add(l)
Spec == Init /\ [][Next]_vars
\* the known points are a Brownian path, whatever the order: increments are independent standard normals
Brownian == \A a \in known, b \in known : cov[a][b] = D * (IF a < b THEN a ELSE b)
\* every point is added exactly once, hence n independent deviates are used
OncePerPoint == Cardinality(known) = Len(order)
Emitted == known = 1..n => Emit([n |-> n, order |-> order])
=============================================================================
