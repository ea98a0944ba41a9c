------------------------------ MODULE Linear ------------------------------
(* Linear systems: a matrix stored in a band (with tri-diagonal ones as a special case) that is filled cell by cell, its products on both
   sides, and the systems that its decompositions must solve: for every x, solving with right-hand side M x gives back x.  The same matrix
   read as dense symmetric, as lower triangular and as diagonal gives the systems of the other decompositions.  MSpec: products of
   rectangular matrices and vectors. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Shapes,   \* <<size, above, below>>
          Vals,     \* cell values
          Loads,    \* how the matrix starts
          MaxOps    \* writes after that
VARIABLES sh, m, low, h, load

N == sh[1]
\* storage with at most one diagonal on either side keeps both
Tri == sh[2] <= 1 /\ sh[3] <= 1
Above == IF Tri THEN 1 ELSE sh[2]
Below == IF Tri THEN 1 ELSE sh[3]
InBand(i, j) == j - i <= Above /\ i - j <= Below
Zero(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
Dot(a, b) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])
T(a) == IF Len(a) = 0 THEN a ELSE [j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]]
Mul(a, x) == TLCEval([i \in 1..Len(a) |-> Dot(a[i], x)])
MMul(a, b) == LET bt == TLCEval(T(b)) IN TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> Dot(a[i], bt[j])]])
Sym(a) == \A i \in 1..Len(a) : \A j \in 1..i : a[i][j] = a[j][i]
RECURSIVE Det(_)
Cut(a, k) == [i \in 1..Len(a) - 1 |-> [j \in 1..Len(a) - 1 |-> a[i + 1][IF j < k THEN j ELSE j + 1]]]
Det(a) == IF Len(a) = 1 THEN a[1][1]
          ELSE FoldLeft(LAMBDA s, k : IF a[1][k] = 0 THEN s ELSE s + (IF k % 2 = 1 THEN 1 ELSE -1) * a[1][k] * Det(TLCEval(Cut(a, k))), 0, [k \in 1..Len(a) |-> k])
Lead(a, k) == [i \in 1..k |-> [j \in 1..k |-> a[i][j]]]
\* leading minors of a tri-diagonal matrix by their recurrence
TriMinors(a) == FoldLeft(LAMBDA s, k : Append(s, a[k][k] * s[Len(s)] - (IF k = 1 THEN 0 ELSE a[k-1][k] * a[k][k-1] * s[Len(s) - 1])), <<1>>, [k \in 1..Len(a) |-> k])
\* those of a product of a triangle with its transpose are the squared products of the diagonal
LowMinors == FoldLeft(LAMBDA s, k : Append(s, s[Len(s)] * low[k][k] * low[k][k]), <<1>>, [k \in 1..N |-> k])
Minors(a) == IF Tri THEN TriMinors(a) ELSE IF Len(a) > 5 THEN LowMinors ELSE <<1>> \o [k \in 1..Len(a) |-> Det(TLCEval(Lead(a, k)))]

Init == sh \in Shapes /\ m = Zero(sh[1]) /\ low = <<>> /\ h = <<>> /\ load \in Loads
Cells == {<<i, j>> \in (1..N) \X (1..N) : InBand(i, j)}
\* every matrix in the band
All == /\ load = "all" /\ h = <<>>
       /\ \E f \in [Cells -> Vals] : m' = [i \in 1..N |-> [j \in 1..N |-> IF InBand(i, j) THEN f[<<i, j>>] ELSE 0]]
       /\ h' = <<[op |-> "L", i |-> 0, j |-> 0, v |-> m']>>
       /\ UNCHANGED <<sh, low, load>>
Write(i, j, op, v) ==
    /\ h' = Append(h, [op |-> op, i |-> i, j |-> j, v |-> v])
    /\ m' = IF op = "C" THEN [m EXCEPT ![i][i] = @ + v, ![j][j] = @ + v, ![i][j] = @ - v, ![j][i] = @ - v]
            ELSE IF ~InBand(i, j) THEN m ELSE [m EXCEPT ![i][j] = IF op = "S" THEN v ELSE @ + v]
    /\ UNCHANGED <<sh, low, load>>
Put == /\ h # <<>> /\ Len(h) <= MaxOps
       /\ \E i \in 1..N, j \in 1..N, v \in Vals : \E op \in {"S", "A", "C"} :
            /\ op = "C" => i # j /\ InBand(i, j) /\ InBand(j, i)
            /\ Write(i, j, op, v)
Spec == Init /\ [][All \/ Put]_<<sh, m, low, h, load>>

\* simulation: one random matrix, then random writes
Tidy(a) == TLCEval([i \in 1..Len(a) |-> TLCEval(a[i])])
RandLow(w, zero) == Tidy([i \in 1..N |-> TLCEval([j \in 1..N |-> IF j > i \/ i - j > w THEN 0 ELSE IF i = j THEN RandomElement(1..3) ELSE RandomElement(-2..2)])])
RLoad == /\ h = <<>>
         /\ LET W == IF Above < Below THEN Above ELSE Below
            IN CASE load = "spd" -> \E l \in {RandLow(W, FALSE)} : low' = l /\ m' = MMul(l, T(l))
                 [] load = "psd" -> \E l0 \in {RandLow(N, FALSE)} : \E zs \in RandomSubset(1, SUBSET (1..N)) :
                                      \E l \in {Tidy([i \in 1..N |-> [j \in 1..N |-> IF j \in zs THEN 0 ELSE l0[i][j]]])} : low' = l /\ m' = MMul(l, T(l))
                 [] load = "sym" -> \E a \in {Tidy([i \in 1..N |-> TLCEval([j \in 1..N |-> IF i - j \in 0..W THEN RandomElement(Vals) ELSE 0])])} :
                                      low' = <<>> /\ m' = Tidy([i \in 1..N |-> [j \in 1..N |-> IF j <= i THEN a[i][j] ELSE a[j][i]]])
                 [] OTHER -> \E a \in {Tidy([i \in 1..N |-> TLCEval([j \in 1..N |-> IF InBand(i, j) THEN RandomElement(Vals) ELSE 0])])} : low' = <<>> /\ m' = a
         /\ h' = <<[op |-> "L", i |-> 0, j |-> 0, v |-> m']>>
         /\ UNCHANGED <<sh, load>>
RPut == /\ h # <<>> /\ Len(h) <= MaxOps
        /\ \E i \in RandomSubset(1, 1..N), j \in RandomSubset(1, 1..N), v \in RandomSubset(1, Vals), op \in RandomSubset(1, {"S", "A", "C"}) :
             Write(i, j, IF op = "C" /\ ~(i # j /\ InBand(i, j) /\ InBand(j, i)) THEN "A" ELSE op, v)
RSpec == Init /\ [][RLoad \/ RPut]_<<sh, m, low, h, load>>

X == TLCEval([i \in 1..N |-> RandomElement({-3, -2, -1, 1, 2, 3, 4})])
Fixed == [i \in 1..N |-> IF i % 2 = 1 THEN i ELSE 1 - 2 * i]
Lower == [i \in 1..N |-> [j \in 1..N |-> IF j <= i THEN m[i][j] ELSE 0]]

\* the products on the two sides are adjoint; coupling keeps row sums; a product of a triangle with its transpose has a nonnegative diagonal
Adjoint == \A i \in 1..N : Mul(m, [j \in 1..N |-> IF i = j THEN 1 ELSE 0]) = T(m)[i]
Banded == load # "psd" => \A i, j \in 1..N : InBand(i, j) \/ m[i][j] = 0
Definite == load = "spd" /\ Len(h) = 1 => Sym(m) /\ Minors(m) = LowMinors
Adds == [][h' # <<>> /\ h # <<>> /\ Last(h').op = "C" => \A i \in 1..N : FoldLeft(+, 0, m[i]) = FoldLeft(+, 0, m'[i])]_<<h, m>>

Full == Len(h) = MaxOps + 1
Verdict(mi) == \* does the decomposition exist?
    IF Tri THEN (IF \A k \in 1..Len(mi) : mi[k] # 0 THEN "yes" ELSE "no")
    ELSE IF ~Sym(m) THEN "no" ELSE IF sh[2] # sh[3] THEN "maybe"
    ELSE IF \A k \in 1..Len(mi) : mi[k] > 0 THEN "yes"
    ELSE LET k == CHOOSE k \in 1..Len(mi) : mi[k] <= 0 /\ \A t \in 1..k - 1 : mi[t] > 0 IN IF mi[k] < 0 THEN "no" ELSE "maybe"
Emitted == Full => \E x \in {IF load = "all" THEN Fixed ELSE X} : \E w \in {IF load = "all" THEN [i \in 1..N |-> i] ELSE X} : \E mi \in {IF load = "psd" THEN <<>> ELSE Minors(m)} :
    Emit([load |-> load, sh |-> sh, h |-> h, m |-> m, x |-> x, w |-> w, ml |-> Mul(m, x), mr |-> Mul(T(m), x), mw |-> Mul(m, w),
          sym |-> Sym(m), ok |-> IF load = "psd" THEN "maybe" ELSE Verdict(mi), spd |-> load # "psd" /\ Sym(m) /\ \A k \in 1..Len(mi) : mi[k] > 0,
          q |-> <<<<Dot(x, Mul(m, x)), Dot(x, Mul(m, w))>>, <<Dot(w, Mul(m, x)), Dot(w, Mul(m, w))>>>>,
          corr |-> IF low # <<>> /\ Len(h) = 1 THEN Mul(low, x) ELSE <<>>,
          ll |-> Mul(Lower, x), lr |-> Mul(T(Lower), x), lok |-> \A i \in 1..N : m[i][i] # 0, dx |-> [i \in 1..N |-> m[i][i] * x[i]], dneg |-> \E i \in 1..N : m[i][i] < 0])

\* products of rectangular matrices: <<rows, inner, inner, columns>>
MInit == sh \in Shapes /\ m = <<>> /\ low = <<>> /\ h = <<>> /\ load = "mul"
Mat(r, c) == Tidy([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(Vals)])])
MNext == /\ h = <<>> /\ h' = <<1>> /\ m' = Mat(sh[1], sh[2]) /\ low' = Mat(sh[3], sh[4]) /\ UNCHANGED <<sh, load>>
MSpec == MInit /\ [][MNext]_<<sh, m, low, h, load>>
Vec(n) == TLCEval([i \in 1..n |-> RandomElement(Vals)])
MEmitted == h # <<>> => \E v \in {Vec(sh[2])}, u \in {Vec(sh[1])} :
    LET fits == sh[2] = sh[3]
    IN Emit([d |-> sh, a |-> m, b |-> low, v |-> v, u |-> u, fits |-> fits,
             ab |-> IF fits THEN MMul(m, low) ELSE <<>>, av |-> Mul(m, v), ua |-> Mul(T(m), u),
             wip |-> Dot(u, Mul(m, v)), jj |-> IF Len(m) = 0 THEN <<>> ELSE MMul(m, T(m))])
Assoc == h # <<>> /\ sh[2] = sh[3] => LET t == [i \in 1..sh[4] |-> i] IN Mul(MMul(m, low), t) = Mul(m, Mul(low, t))
=============================================================================
