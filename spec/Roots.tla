-------------------------------- MODULE Roots --------------------------------
(* Root searches.  A continuous function is a polygon over whole knots, straight beyond its ends; a search asks for values and keeps, once it has seen both
   signs, a bracket: two places of opposite sign (zero counts as either), which only ever shrinks, to a part of itself.  The next place asked for lies in the
   bracket, otherwise it is free.  The polygon's zeros are known exactly, and there is always one in the bracket. *)
EXTENDS Emit, Integers, FiniteSetsExt, SequencesExt, Randomization
CONSTANTS KnotSets, Vals, Shape, Fine, Search, R
VARIABLES k, f, br, n
vars == <<k, f, br, n>>
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* Shape: "up", "down": strictly monotone; "any": only the ends need opposite signs *)
ShapeOk(g) ==
  CASE Shape = "up" -> \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]
    [] Shape = "down" -> \A i \in 1..(Len(g) - 1) : g[i] > g[i + 1]
    [] OTHER -> g[1] * g[Len(g)] < 0
Seg(x) == IF x < k[1] * Fine THEN 1 ELSE IF x >= k[Len(k)] * Fine THEN Len(k) - 1 ELSE CHOOSE i \in 1..(Len(k) - 1) : k[i] * Fine <= x /\ x < k[i + 1] * Fine
(* the value at x / Fine, times Fine times the width of the segment: signs are exact *)
At(x) == LET i == Seg(x) IN f[i] * (k[i + 1] - k[i]) * Fine + (f[i + 1] - f[i]) * (x - k[i] * Fine)
(* zeros: in each segment where the sign changes, at k[i] + num / den; a straight end reaches further when it heads for zero *)
Zeros ==
  {[at |-> k[i], num |-> f[i] * (k[i + 1] - k[i]), den |-> f[i] - f[i + 1]] : i \in {j \in 1..(Len(k) - 1) :
       f[j] # f[j + 1] /\ (f[j] * f[j + 1] <= 0 \/ (j = 1 /\ Shape # "any" /\ Sgn(f[j]) * Sgn(f[j + 1] - f[j]) > 0) \/ (j = Len(k) - 1 /\ Shape # "any" /\ Sgn(f[j + 1]) * Sgn(f[j + 1] - f[j]) < 0))}}
Flat == {<<k[i], k[i + 1]>> : i \in {j \in 1..(Len(k) - 1) : f[j] = 0 /\ f[j + 1] = 0}}
Lattice == (k[1] * Fine)..(k[Len(k)] * Fine)
Sorted(m) == {s \in [1..m -> Vals] : TRUE}
Init ==
  /\ k \in KnotSets /\ br = <<>> /\ n = 0
  /\ f \in (IF R = 0 THEN {g \in [1..Len(k) -> Vals] : ShapeOk(g)} ELSE {<<>>})
Load ==
  /\ f = <<>>
  /\ \E g \in RandomSubset(R, [1..Len(k) -> Vals]) : f' = (CASE Shape = "up" -> SortSeq(g, <) [] Shape = "down" -> SortSeq(g, >) [] OTHER -> g) /\ ShapeOk(f')
  /\ UNCHANGED <<k, br, n>>
Bracketed(a, b) == At(a) * At(b) <= 0
Ask ==
  /\ Search /\ f # <<>> /\ n < 5
  /\ IF br = <<>>
     THEN \E a, b \in Lattice : a < b /\ At(a) * At(b) <= 0 /\ br' = <<a, b>>
     ELSE \E x \in Lattice : /\ br[1] <= x /\ x <= br[2]
                             /\ \/ At(br[1]) * At(x) <= 0 /\ br' = <<br[1], x>>
                                \/ At(x) * At(br[2]) <= 0 /\ br' = <<x, br[2]>>
  /\ n' = n + 1 /\ UNCHANGED <<k, f>>
Next == Load \/ Ask
Spec == Init /\ [][Next]_vars
(* a bracket holds a zero: nothing between its ends is needed to know it *)
Holds ==
  br = <<>> \/ (\E z \in Zeros : br[1] * z.den * Sgn(z.den) <= Fine * (z.at * z.den + z.num) * Sgn(z.den) /\ Fine * (z.at * z.den + z.num) * Sgn(z.den) <= br[2] * z.den * Sgn(z.den))
            \/ (\E z \in Flat : br[1] <= z[2] * Fine /\ z[1] * Fine <= br[2])
One == (f # <<>> /\ Shape # "any") => Cardinality({<<Sgn(z.den) * (z.at * z.den + z.num), z.den * Sgn(z.den)>> : z \in Zeros}) \in 1..2
Emitted == (f # <<>> /\ br = <<>>) => Emit([k |-> k, f |-> f, z |-> SetToSeq(Zeros), flat |-> SetToSeq(Flat)])
=============================================================================
