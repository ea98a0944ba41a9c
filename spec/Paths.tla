-------------------------------- MODULE Paths --------------------------------
(* Models of an asset and the paths they generate.  A model owns its parameters (spot, rate, yield and a surface of volatilities); copies own copies.
   Given the dates a product looks at, a path walks from today over every date, gaps of a surface model being cut into equal steps not longer than the
   longest allowed.  Over a step the logarithm of the spot moves on a lattice; the volatility of the step is the surface at its start, linear in time and
   in the logarithm of the spot, flat outside.  The harness turns each move into the normal draw that makes it, and the model must follow the walk.
   Units: a quarter of a year is Q ticks, a year 4 Q; the lattice has steps of 1/8 in the logarithm; volatilities and rates are percentages. *)
EXTENDS Emit, Integers, FiniteSetsExt, SequencesExt, Randomization
CONSTANTS Q, Kinds, SpotGrids, TimeGrids, Lines, MaxSteps, VolSet, RateSet, SpotSet, Moves, MaxOps, R
VARIABLES kind, sg, tg, maxDt, line, flags, dfs, mods, hist, walk, pos
vars == <<kind, sg, tg, maxDt, line, flags, dfs, mods, hist, walk, pos>>
One(S) == IF R = 0 THEN S ELSE RandomSubset(1, S)
Surfaces == IF R = 0 THEN [1..Len(sg) -> [1..Len(tg) -> VolSet]]
            ELSE {TLCEval([i \in 1..Len(sg) |-> TLCEval([j \in 1..Len(tg) |-> RandomElement(VolSet)])])}

(* today, then every date, with the gaps cut up *)
Cut(a, b) == LET n == IF kind = "bs" THEN 1 ELSE ((b - a) + maxDt - 1) \div maxDt IN [i \in 1..n |-> a + ((b - a) * i) \div n]
Steps == FoldLeft(LAMBDA acc, d : IF d = 0 THEN acc ELSE acc \o Cut(acc[Len(acc)], d), <<0>>, line)

(* a place on a grid: the knots around it and the weight of the upper one *)
Place(g, x) ==
  IF x <= g[1] THEN [lo |-> 1, hi |-> 1, w |-> 0, d |-> 1]
  ELSE IF x >= g[Len(g)] THEN [lo |-> Len(g), hi |-> Len(g), w |-> 0, d |-> 1]
  ELSE LET i == CHOOSE i \in 1..(Len(g) - 1) : g[i] <= x /\ x < g[i + 1] IN [lo |-> i, hi |-> i + 1, w |-> x - g[i], d |-> g[i + 1] - g[i]]
OnKnot(g, x) == \E i \in 1..Len(g) : g[i] = x /\ Len(g) > 1
InTime(row, p) == row[p.lo] * (p.d - p.w) + row[p.hi] * p.w
Vol(m, t, x) ==
  LET pt == Place(tg, t) ps == Place(sg, x)
  IN [num |-> InTime(m.v[ps.lo], pt) * (ps.d - ps.w) + InTime(m.v[ps.hi], pt) * ps.w, den |-> pt.d * ps.d,
      slope |-> InTime(m.v[ps.hi], pt) - InTime(m.v[ps.lo], pt), in |-> ps.lo # ps.hi, s |-> ps, t |-> pt]

Init ==
  /\ kind \in Kinds /\ sg \in (IF kind = "bs" THEN {<<0>>} ELSE SpotGrids) /\ tg \in (IF kind = "bs" THEN {<<0>>} ELSE TimeGrids)
  /\ maxDt \in MaxSteps /\ line = <<>> /\ flags = <<>> /\ dfs = <<>>
  /\ mods = <<>> /\ hist = <<>> /\ walk = [m |-> 0, x |-> 0] /\ pos = <<>>
Idle == walk.m = 0 /\ mods # <<>>
Load ==
  /\ mods = <<>>
  /\ \E x \in One(SpotSet), r \in One(RateSet), q \in One(RateSet), v \in Surfaces : mods' = <<[x |-> x, r |-> r, q |-> q, v |-> v]>>
  /\ \E l \in One(Lines) :
       /\ line' = l
       /\ \E f \in One([1..Len(l) -> BOOLEAN]), d \in One([1..Len(l) -> {<<>>, <<0>>, <<2 * Q, 5 * Q>>}]) : flags' = f /\ dfs' = d
  /\ hist' = <<[op |-> "A", line |-> line', flags |-> flags', dfs |-> dfs', mod |-> mods'[1]]>>
  /\ UNCHANGED <<kind, sg, tg, maxDt, walk, pos>>
(* another set of dates *)
Realloc ==
  /\ Idle /\ Len(hist) < MaxOps
  /\ \E l \in One(Lines) :
       /\ line' = l
       /\ \E f \in One([1..Len(l) -> BOOLEAN]), d \in One([1..Len(l) -> {<<>>, <<0>>, <<2 * Q, 5 * Q>>}]) : flags' = f /\ dfs' = d
  /\ hist' = Append(hist, [op |-> "A", line |-> line', flags |-> flags', dfs |-> dfs', mod |-> mods[1]])
  /\ UNCHANGED <<kind, sg, tg, maxDt, mods, walk, pos>>
CloneOf ==
  /\ Idle /\ Len(hist) < MaxOps /\ Len(mods) < 3
  /\ \E m \in One(1..Len(mods)) : mods' = Append(mods, mods[m]) /\ hist' = Append(hist, [op |-> "C", m |-> m])
  /\ UNCHANGED <<kind, sg, tg, maxDt, line, flags, dfs, walk, pos>>
Bump ==
  /\ Idle /\ Len(hist) < MaxOps
  /\ \E m \in One(1..Len(mods)), p \in One({"x", "r", "q", "v"}), i \in One(1..Len(sg)), j \in One(1..Len(tg)) :
       /\ (p # "v" /\ R = 0) => (i = 1 /\ j = 1)
       /\ \E to \in One(IF p = "x" THEN SpotSet ELSE IF p = "v" THEN VolSet ELSE RateSet) :
            /\ mods' = IF p = "v" THEN [mods EXCEPT ![m].v[i][j] = to] ELSE [mods EXCEPT ![m][p] = to]
            /\ hist' = Append(hist, [op |-> "B", m |-> m, p |-> p, i |-> i, j |-> j, to |-> to])
  /\ UNCHANGED <<kind, sg, tg, maxDt, line, flags, dfs, walk, pos>>
Start ==
  /\ Idle /\ Len(hist) < MaxOps
  /\ \E m \in One(1..Len(mods)) : walk' = [m |-> m, x |-> mods[m].x]
  /\ pos' = <<>>
  /\ UNCHANGED <<kind, sg, tg, maxDt, line, flags, dfs, mods, hist>>
Step ==
  /\ walk.m # 0 /\ Len(pos) < Len(Steps) - 1
  /\ LET k == Len(pos) + 1 t == Steps[k] u == Steps[k + 1]
     IN \E d \in One(Moves) :
          /\ pos' = Append(pos, [t |-> t, u |-> u, x |-> walk.x, y |-> walk.x + d, vol |-> Vol(mods[walk.m], t, walk.x), knot |-> OnKnot(sg, walk.x), date |-> u \in ToSet(line)])
          /\ walk' = [walk EXCEPT !.x = @ + d]
  /\ UNCHANGED <<kind, sg, tg, maxDt, line, flags, dfs, mods, hist>>
Arrive ==
  /\ walk.m # 0 /\ Len(pos) = Len(Steps) - 1
  /\ hist' = Append(hist, [op |-> "W", m |-> walk.m, mod |-> mods[walk.m], steps |-> pos, line |-> line, flags |-> flags, dfs |-> dfs])
  /\ walk' = [m |-> 0, x |-> 0] /\ pos' = <<>>
  /\ UNCHANGED <<kind, sg, tg, maxDt, line, flags, dfs, mods>>
Next == Load \/ Realloc \/ CloneOf \/ Bump \/ Start \/ Step \/ Arrive
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* every date is a step's end, steps go forward, none is too long, all steps of a gap are equal, nothing is added that is not needed *)
Covered ==
  line = <<>> \/
  LET s == Steps ends == {s[i] : i \in 2..Len(s)} dates == ToSet(line) \ {0}
  IN /\ dates \subseteq ends /\ s[1] = 0
     /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1] /\ (kind # "bs" => s[i + 1] - s[i] <= maxDt)
     /\ \A i \in 2..(Len(s) - 1) : s[i] \notin dates => s[i + 1] - s[i] = s[i] - s[i - 1]
     /\ kind = "bs" => ends = dates
     /\ s[Len(s)] = Max(ToSet(line))
(* a volatility used is between the smallest and the largest of the surface, and exact on the knots *)
Between ==
  \A k \in 1..Len(pos) :
    LET vs == UNION {{mods[walk.m].v[i][j] : j \in 1..Len(tg)} : i \in 1..Len(sg)} p == pos[k].vol
    IN p.den > 0 /\ Min(vs) * p.den <= p.num /\ p.num <= Max(vs) * p.den
(* copies are independent: only the bumped model changes *)
Apart == [][\A m \in 1..Len(mods) : (m <= Len(mods') /\ mods'[m] # mods[m]) => \A n \in 1..Len(mods) : n # m => mods'[n] = mods[n]]_vars
Emitted == (Len(hist) = MaxOps /\ walk.m = 0 /\ \E i \in 1..MaxOps : hist[i].op = "W") => Emit([kind |-> kind, sg |-> sg, tg |-> tg, mx |-> maxDt, hist |-> hist])
=============================================================================
