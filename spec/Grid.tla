-------------------------------- MODULE Grid --------------------------------
(* C26.  Arrays of any number of dimensions and matrices, as functions of their coordinates: no layout here.
   Resizing keeps every cell whose coordinate is still in range, the others are zero. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Kind,          \* "array", "cube" or "matrix"
          ShapeSet,      \* sequences of sizes
          MaxOps
VARIABLES a, b, hist
vars == <<a, b, hist>>
RECURSIVE Coords(_)
Coords(sz) == IF sz = <<>> THEN {<<>>} ELSE {<<i>> \o t : i \in 0..(Head(sz) - 1), t \in Coords(Tail(sz))}
Make(sz, v) == [sz |-> sz, v |-> TLCEval([c \in Coords(sz) |-> v])]
Resized(x, sz) == [sz |-> sz, v |-> TLCEval([c \in Coords(sz) |-> IF c \in DOMAIN x.v THEN x.v[c] ELSE 0])]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Empty2 == [sz |-> <<0, 0>>, v |-> Make(<<0, 0>>, 0).v]
RECURSIVE Lex(_)
Lex(sz) == IF sz = <<>> THEN <<<<>>>> ELSE LET t == Lex(Tail(sz)) IN FoldLeft(LAMBDA acc, i : acc \o [k \in 1..Len(t) |-> <<i - 1>> \o t[k]], <<>>, [i \in 1..Head(sz) |-> i])
Flat(x) == LET l == Lex(x.sz) IN [k \in 1..Len(l) |-> x.v[l[k]]]
Show(x) == [sz |-> x.sz, v |-> Flat(x)]
Init == \E s, t \in ShapeSet : a = Make(s, 0) /\ b = Make(t, 7) /\ hist = <<[op |-> "start", x |-> <<>>, ok |-> TRUE, a |-> Show(Make(s, 0)), b |-> Show(Make(t, 7))]>>
Step(op, x, ok, na, nb) == a' = na /\ b' = nb /\ hist' = Append(hist, [op |-> op, x |-> x, ok |-> ok, a |-> Show(na), b |-> Show(nb)])
Val == 10 + Len(hist)          \* a value not written before
Write(c) == c \in DOMAIN a.v /\ Step("W", c, TRUE, [a EXCEPT !.v[c] = Val], b)
Resize(sz) == Len(sz) = Len(a.sz) /\ Step("R", sz, TRUE, Resized(a, sz), b)
Fill == Step("F", <<>>, TRUE, Make(a.sz, Val), b)
Scale == Step("M", <<>>, TRUE, [a EXCEPT !.v = [c \in DOMAIN a.v |-> 2 * a.v[c]]], b)
Swap == Step("X", <<>>, TRUE, b, a)
Copy == Step("C", <<>>, TRUE, a, a)
Move == Kind = "matrix" /\ Step("V", <<>>, TRUE, Empty2, a)
Append_ == /\ Kind = "matrix" /\ b.sz[2] >= a.sz[2]
           /\ LET r == a.sz[1] + b.sz[1] m == IF a.sz[2] > b.sz[2] THEN a.sz[2] ELSE b.sz[2] IN
              Step("A", <<>>, TRUE, [sz |-> <<r, m>>, v |-> TLCEval([c \in Coords(<<r, m>>) |->
                 IF c[1] < a.sz[1] THEN (IF c \in DOMAIN a.v THEN a.v[c] ELSE 0) ELSE (LET d == <<c[1] - a.sz[1], c[2]>> IN IF d \in DOMAIN b.v THEN b.v[d] ELSE 0)])], b)
Transpose == /\ Kind = "matrix" /\ Prod(a.sz) > 0
             /\ Step("T", <<>>, TRUE, [sz |-> <<a.sz[2], a.sz[1]>>, v |-> TLCEval([c \in Coords(<<a.sz[2], a.sz[1]>>) |-> a.v[<<c[2], c[1]>>]])], b)
\* exchange with a plain vector of n entries Val .. Val + n - 1, when only one size is not 1
OneDim(sz) == Cardinality({k \in DOMAIN sz : sz[k] # 1}) <= 1
Long(sz) == IF \E k \in DOMAIN sz : sz[k] # 1 THEN CHOOSE k \in DOMAIN sz : sz[k] # 1 ELSE 1
Vector(n) == /\ Kind = "array" /\ Prod(a.sz) > 0 /\ Prod(a.sz) < 20
             /\ IF OneDim(a.sz) THEN LET k == Long(a.sz) sz == [a.sz EXCEPT ![k] = n] IN Step("Y", <<n>>, TRUE, [sz |-> sz, v |-> TLCEval([c \in Coords(sz) |-> Val + c[k]])], b)
                ELSE Step("Y", <<n>>, FALSE, a, b)
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E c \in DOMAIN a.v : Write(c)
           \/ \E sz \in ShapeSet : Resize(sz)
           \/ Fill \/ Scale \/ Swap \/ Copy \/ Move \/ Append_ \/ Transpose
           \/ \E n \in 1..3 : Vector(n)
Spec == Init /\ [][Next]_vars
RNext == /\ Len(hist) <= MaxOps
         /\ \E w \in RandomSubset(1, 1..14) :
            CASE w \in 1..4 /\ DOMAIN a.v # {} -> \E c \in RandomSubset(1, DOMAIN a.v) : Write(c)
              [] w \in 5..8 /\ \E sz \in ShapeSet : Len(sz) = Len(a.sz) -> \E sz \in RandomSubset(1, {s \in ShapeSet : Len(s) = Len(a.sz)}) : Resize(sz)
              [] w = 9 -> Scale [] w = 10 -> Swap [] w = 11 -> Copy
              [] w = 12 /\ Kind = "matrix" -> Move
              [] w = 13 /\ Kind = "matrix" /\ a.sz[1] < 5 /\ b.sz[2] >= a.sz[2] -> Append_
              [] w = 14 /\ Kind = "matrix" /\ Prod(a.sz) > 0 -> Transpose
              [] OTHER -> Fill
RSpec == Init /\ [][RNext]_vars
Total == DOMAIN a.v = Coords(a.sz) /\ DOMAIN b.v = Coords(b.sz)
(* whatever the history, a cell holds the last value written at its coordinate: resizing there and back never moves values *)
Emitted == Len(hist) = MaxOps + 1 => Emit([h |-> hist])
=============================================================================
