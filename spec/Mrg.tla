-------------------------------- MODULE Mrg --------------------------------
(* C17.  The combined multiple-recursive generator as published by L'Ecuyer (MRG32k3a): two recurrences
   modulo m1 and m2, combined modulo m1.  Numbers are pairs <<high 16 bits, low 16 bits>>.  A behaviour
   starts at some position of the stream (reached by the published jump-ahead, the matrix power) and steps. *)
EXTENDS Emit, Integers, SequencesExt
CONSTANTS Seeds, Starts, Steps     \* Starts: positions, as sequences of bits (least significant first)
VARIABLES seed, start, k, x, y
vars == <<seed, start, k, x, y>>
W == 65536
M1 == <<65535, 65327>>             \* 2^32 - 209
M2 == <<65535, 42683>>             \* 2^32 - 22853
N(i) == <<i \div W, i % W>>
Ge(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
Plus(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + l \div W, l % W>>
Minus(a, b) == LET l == a[2] - b[2] IN IF l >= 0 THEN <<a[1] - b[1], l>> ELSE <<a[1] - b[1] - 1, l + W>>
AddMod(a, b, m) == LET s == Plus(a, b) IN IF Ge(s, m) THEN Minus(s, m) ELSE s
SubMod(a, b, m) == IF Ge(a, b) THEN Minus(a, b) ELSE Minus(Plus(a, m), b)

\* a * b for the bits of one half of b, on top of acc
Half(a, h, acc, m) == FoldLeft(LAMBDA s, i : LET d == AddMod(s, s, m) IN IF (h \div 2^(16 - i)) % 2 = 1 THEN AddMod(d, a, m) ELSE d, acc, [i \in 1..16 |-> i])
MulMod(a, b, m) == Half(a, b[2], Half(a, b[1], <<0, 0>>, m), m)
A12 == N(1403580)
A13 == N(810728)
A21 == N(527612)
A23 == N(1370589)
\* histories are <<most recent, one before, two before>>
StepX(h) == <<SubMod(MulMod(h[2], A12, M1), MulMod(h[3], A13, M1), M1), h[1], h[2]>>
StepY(h) == <<SubMod(MulMod(h[1], A21, M2), MulMod(h[3], A23, M2), M2), h[1], h[2]>>
\* numerator of the uniform over m1 + 1
U == IF Ge(y[1], x[1]) THEN Minus(Plus(x[1], M1), y[1]) ELSE Minus(x[1], y[1])
\* jump-ahead
Mat(a, b, m) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> AddMod(AddMod(MulMod(a[i][1], b[1][j], m), MulMod(a[i][2], b[2][j], m), m), MulMod(a[i][3], b[3][j], m), m)]])
Vec(a, v, m) == TLCEval([i \in 1..3 |-> AddMod(AddMod(MulMod(v[1], a[i][1], m), MulMod(v[2], a[i][2], m), m), MulMod(v[3], a[i][3], m), m)])
Z == <<0, 0>>
O == <<0, 1>>
MX == <<<<Z, A12, Minus(M1, A13)>>, <<O, Z, Z>>, <<Z, O, Z>>>>
MY == <<<<A21, Z, Minus(M2, A23)>>, <<O, Z, Z>>, <<Z, O, Z>>>>
Jump(p, v, bits, m) == FoldLeft(LAMBDA s, b : <<Mat(s[1], s[1], m), IF b = 1 THEN Vec(s[1], s[2], m) ELSE s[2]>>, <<p, v>>, bits)[2]
Init == /\ seed \in Seeds /\ start \in Starts /\ k = 0
        /\ x = Jump(MX, <<N(seed), N(seed), N(seed)>>, start, M1)
        /\ y = Jump(MY, <<N(seed + 1), N(seed + 1), N(seed + 1)>>, start, M2)
Next == k < Steps /\ k' = k + 1 /\ x' = StepX(x) /\ y' = StepY(y) /\ UNCHANGED <<seed, start>>
Spec == Init /\ [][Next]_vars
Reduced == k = 0 \/ (~Ge(x[1], M1) /\ ~Ge(y[1], M2))
Inside == k = 0 \/ (U # Z /\ ~Ge(U, Plus(M1, O)))
Emitted == k = 0 \/ Emit([seed |-> seed, start |-> start, k |-> k, h |-> U[1], l |-> U[2]])
=============================================================================
