----------------------------- MODULE Calibration -----------------------------
(* C34.  Implied volatilities that a known diffusion produces, and the grid of local volatilities a calibration must read off them.
   Three families, each with an exact local volatility:
     term    implied volatility v(T) the same at all strikes: the local variance is the growth of v(T)^2 T, that is v^2 + 2 T v v'
     shift   volatility sig on spot + a: local volatility sig (K + a) / K
     normal  a constant volatility sig per unit of today's spot: sig S / K
   v(T) is v0 plus a curve of spreads (straight between nodes, flat outside), which is either part of the surface or a view of risk laid on top.
   Spots are in tenths, times in ticks of 1/48 year, volatilities in percent; grid points are fractions [n, d]. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Sp, Fams, V0s, As, SpotSets, MaxDss, TimeSets, MaxDts, NodeSets, SprSets, R
VARIABLES cfg, done
vars == <<cfg, done>>
Pick(S) == IF R = 0 THEN S ELSE {RandomElement(S)}
Init == cfg = <<>> /\ done = 0
Load ==
  /\ done < (IF R = 0 THEN 1 ELSE R) /\ done' = done + 1
  /\ \E f \in Pick(Fams) : \E v0 \in Pick(V0s), a \in Pick(IF f = "shift" THEN As ELSE {0}), ss \in Pick(SpotSets), ds \in Pick(MaxDss), ts \in Pick(TimeSets), dt \in Pick(MaxDts),
        ns \in Pick(IF f = "term" THEN NodeSets ELSE {<<1>>}) :
     \E sp \in (IF f # "term" THEN {<<0>>} ELSE IF R = 0 THEN [1..Len(ns) -> SprSets] ELSE {TLCEval([i \in 1..Len(ns) |-> RandomElement(SprSets)])}), risk \in (IF f = "term" THEN Pick(BOOLEAN) ELSE {FALSE}) :
       cfg' = [f |-> f, v0 |-> v0, a |-> a, ss |-> ss, ds |-> ds, ts |-> ts, dt |-> dt, ns |-> ns, sp |-> sp, risk |-> risk]
Next == Load
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ grids ----- *)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Cut(x, y, mx) == IF y - x <= mx THEN <<[n |-> y, d |-> 1]>>
                 ELSE LET k == (y - x + mx - 1) \div mx IN [i \in 1..k |-> IF i = k THEN [n |-> y, d |-> 1] ELSE [n |-> x * k + i * (y - x), d |-> k]]
Fill(s, mx) == FoldLeft(LAMBDA acc, i : acc \o Cut(s[i], s[i + 1], mx), <<[n |-> s[1], d |-> 1]>>, [i \in 1..(Len(s) - 1) |-> i])
With(s, x) == SetToSortSeq(ToSet(s) \cup {x}, LAMBDA p, q : p < q)
Spots == Fill(cfg.ss, cfg.ds)
Times == Fill(With(cfg.ts, cfg.dt), cfg.dt)      \* the first time is no later than one step

(* ---------------------------------------------------------- volatilities ----- *)
(* v(T) = A / D percent and T v'(T) = B / D, at T = t.n / t.d ticks; at a node the slope is the mean of both sides *)
Term(t) ==
  LET ns == cfg.ns
      sp == cfg.sp
      m == Len(ns)
      below == {i \in 1..m : ns[i] * t.d <= t.n}
      above == {i \in 1..m : ns[i] * t.d >= t.n}
      lo == IF below = {} THEN 0 ELSE Max(below)
      hi == IF above = {} THEN m + 1 ELSE Min(above)
      seg(i) == IF i < 1 \/ i >= m THEN [s |-> 0, w |-> 1] ELSE [s |-> sp[i + 1] - sp[i], w |-> ns[i + 1] - ns[i]]
  IN IF lo = hi THEN LET l == seg(lo - 1) r == seg(lo) d == 2 * t.d * l.w * r.w IN [A |-> (cfg.v0 + sp[lo]) * d, B |-> t.n * (l.s * r.w + r.s * l.w), D |-> d]
     ELSE IF lo = 0 THEN [A |-> cfg.v0 + sp[1], B |-> 0, D |-> 1]
     ELSE IF hi = m + 1 THEN [A |-> cfg.v0 + sp[m], B |-> 0, D |-> 1]
     ELSE LET g == seg(lo) d == t.d * g.w IN [A |-> (cfg.v0 + sp[lo]) * d + g.s * (t.n - ns[lo] * t.d), B |-> t.n * g.s, D |-> d]
(* local variance over percent squared, or local volatility over percent when sq is FALSE *)
Local(k, t) == CASE cfg.f = "term" -> LET v == Term(t) IN [n |-> v.A + 2 * v.B, m |-> v.A, d |-> v.D, sq |-> TRUE]        \* variance n m / d^2
                 [] cfg.f = "shift" -> [n |-> cfg.v0 * (k.n + cfg.a * k.d), m |-> 1, d |-> k.n, sq |-> FALSE]
                 [] OTHER -> [n |-> cfg.v0 * Sp * k.d, m |-> 1, d |-> k.n, sq |-> FALSE]
(* volatility of the surface itself at the money, in hundredths of a percent, and the square of 2.5 standard deviations of the at-the-money call, as a part of Base *)
Base == Sp + cfg.a
Vol(t) == IF cfg.f = "term" /\ ~cfg.risk THEN LET v == Term(t) IN (v.A * 100) \div v.D ELSE cfg.v0 * 100
Var(t) == LET v == Vol(t) IN ((((v * v) \div 48) * t.n) \div t.d)
Std2(t) == LET s == Var(t) y == s \div 10000 IN IF cfg.f = "normal" THEN s ELSE s - (y * y) \div 12 + (((y * y) \div 10000) * y) \div 206
Abs(x) == IF x < 0 THEN -x ELSE x
Ratio(x, y) == LET r == (x % y) * 1000 IN (x \div y) * 10000 + (r \div y) * 10 + ((r % y) * 10) \div y          \* 10000 x / y, by long division
Far(k) == LET x == Min({20000, Ratio(Abs(k.n - Sp * k.d), Base * k.d)}) IN (x * x * 4) \div 25
Inside(k, t) == Far(k) <= Std2(t)
Doubt(k, t) == Abs(Far(k) - Std2(t)) < Std2(t) \div 40
(* where the volatility of cell (i, j) is taken from: itself inside the band, the nearest grid spot inside otherwise, today's spot (0) when no grid spot is inside *)
Source(i, t) ==
  LET g == Spots in == {k \in 1..Len(g) : Inside(g[k], t)} IN
  IF in = {} THEN 0 ELSE IF i \in in THEN i ELSE IF i < Min(in) THEN Min(in) ELSE Max(in)
At(i) == IF i = 0 THEN [n |-> Sp, d |-> 1] ELSE Spots[i]
(* the diffusion makes sense, and the band is not within rounding of a grid spot *)
Sane ==
  /\ Sorted(cfg.ss) /\ Sorted(cfg.ts) /\ Sorted(cfg.ns)
  /\ \A j \in 1..Len(Times) : LET t == Times[j] IN
       /\ Var(t) >= 9 * 10000 /\ Var(t) <= (IF cfg.f = "term" THEN 3600 ELSE 1000) * 10000
       /\ \A i \in 1..Len(Spots) : ~Doubt(Spots[i], t)
       /\ \A i \in 1..Len(Spots) : Inside(Spots[i], t) => (Spots[i].n + cfg.a * Spots[i].d) * 3 > Base * Spots[i].d
       /\ Local(At(0), t).n > 0
       /\ cfg.f = "term" => LET v == Term(t) IN v.A > 2 * v.D /\ v.A + 2 * v.B > v.D
Good == cfg # <<>> /\ Sane

(* ---------------------------------------------------------- properties ----- *)
Leq(x, y) == x.n * y.d <= y.n * x.d
Lt(x, y) == x.n * y.d < y.n * x.d
GridOk(g, s, mx) ==
  /\ \A i \in 1..Len(s) : \E k \in 1..Len(g) : g[k].n = s[i] * g[k].d
  /\ \A k \in 1..(Len(g) - 1) : Lt(g[k], g[k + 1]) /\ Leq(g[k + 1], [n |-> g[k].n + mx * g[k].d, d |-> g[k].d])
  /\ g[1].n = s[1] /\ g[Len(g)].n = s[Len(s)]
Grids == Good => GridOk(Spots, cfg.ss, cfg.ds) /\ GridOk(Times, With(cfg.ts, cfg.dt), cfg.dt)
(* flat where nothing moves; sources are inside, keep the order of the spots and change nothing inside *)
Flat == Good /\ cfg.f = "term" /\ (\A i \in DOMAIN cfg.sp : cfg.sp[i] = cfg.sp[1]) => \A j \in 1..Len(Times) : LET l == Local(At(0), Times[j]) IN l.n = l.m /\ l.n = (cfg.v0 + cfg.sp[1]) * l.d
Sources == Good => \A j \in 1..Len(Times) : \A i \in 1..Len(Spots) :
  LET s == Source(i, Times[j]) IN /\ s > 0 => Inside(Spots[s], Times[j])
                                  /\ Inside(Spots[i], Times[j]) => s = i
                                  /\ i < Len(Spots) => s <= Source(i + 1, Times[j])
Emitted == Good => Emit([cfg |-> cfg, spots |-> Spots, times |-> Times, src |-> [j \in 1..Len(Times) |-> [i \in 1..Len(Spots) |-> Source(i, Times[j])]],
                         lv |-> [j \in 1..Len(Times) |-> [i \in 1..Len(Spots) |-> Local(At(Source(i, Times[j])), Times[j])]],
                         atm |-> [j \in 1..Len(Times) |-> LET v == IF cfg.f = "term" THEN Term(Times[j]) ELSE [A |-> cfg.v0, B |-> 0, D |-> 1] IN v]])
=============================================================================
