------------------------------- MODULE Stacks -------------------------------
(* C37.  Two stacks of values and what is seen of them after every operation: the size and the values from the top down. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Fixed, Cap, MaxOps, Starts, R       \* Fixed: no clearing or moving, at most Cap values
VARIABLES a, b, hist
vars == <<a, b, hist>>
Pick(S) == IF R = 0 THEN S ELSE RandomSubset(1, S)
Init == a = <<>> /\ b = <<>> /\ \E s \in Starts : hist = <<[op |-> "start", x |-> s, ret |-> 0, ok |-> TRUE, a |-> <<>>, b |-> <<>>]>>
Down(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Step(op, x, ret, ok, na, nb) == a' = na /\ b' = nb /\ hist' = Append(hist, [op |-> op, x |-> x, ret |-> ret, ok |-> ok, a |-> Down(na), b |-> Down(nb)])
New == Len(hist)
Full == Fixed /\ Len(a) >= Cap
Push == IF Full THEN Step("push", New, 0, FALSE, a, b) ELSE Step("push", New, 0, TRUE, Append(a, New), b)
Many(n) == LET m == IF Fixed /\ Len(a) + n > Cap THEN Cap - Len(a) ELSE n IN Step("many", n, 0, m = n, a \o [i \in 1..m |-> New * 1000 + i], b)
Pop(n) == n <= Len(a) /\ Step("pop", n, 0, TRUE, SubSeq(a, 1, Len(a) - n), b)
Take == a # <<>> /\ Step("take", 0, a[Len(a)], TRUE, Front(a), b)
Set(i) == i < Len(a) /\ Step("set", i, 0, TRUE, [a EXCEPT ![Len(a) - i] = New], b)
Reset == Step("reset", 0, 0, TRUE, <<>>, b)
Clear == ~Fixed /\ Step("clear", 0, 0, TRUE, <<>>, b)
Copy == Step("copy", 0, 0, TRUE, a, a)                  \* b = a
Back == Step("back", 0, 0, TRUE, b, b)                  \* a = b
Fresh == Step("fresh", 0, 0, TRUE, a, a)                \* b built as a copy of a
Move == ~Fixed /\ Step("move", 0, 0, TRUE, <<>>, a)     \* b = move(a)
Steal == ~Fixed /\ Step("steal", 0, 0, TRUE, <<>>, a)   \* b built from move(a)
Self == Step("self", 0, 0, TRUE, a, b)                  \* a = a
Next == /\ Len(hist) <= MaxOps
        /\ \E w \in Pick(1..19) :
           CASE w \in 1..5 -> Push
             [] w = 6 -> \E n \in Pick({2, 5, 40}) : Many(n)
             [] w \in 7..8 -> \E n \in Pick(1..3) : Pop(n)
             [] w \in 9..10 -> Take
             [] w = 11 -> \E i \in Pick(0..2) : Set(i)
             [] w = 12 -> Reset [] w = 13 -> Clear [] w = 14 -> Copy [] w = 15 -> Back [] w = 16 -> Fresh [] w = 17 -> Move [] w = 18 -> Steal
             [] OTHER -> Self
Spec == Init /\ [][Next]_vars
Sizes == Fixed => Len(a) <= Cap /\ Len(b) <= Cap
Emitted == Len(hist) = MaxOps + 1 => Emit([h |-> hist])
=============================================================================
