------------------------------- MODULE Layout -------------------------------
(* C26.  The table layout language: arguments by digit, 0 a blank cell; T transposes, I rotates by half a turn, * puts
   everything in one row; , and . put tables side by side (top or bottom aligned), ; and : one above the other (left or
   right aligned).  A stack machine builds formats together with the tables they denote. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Args,        \* <<<<rows, cols>>, ...>>
          MaxOps, MaxStack,
          Toks, MaxToks \* all strings of these tokens, for well-formedness
VARIABLES stack, n, toks
vars == <<stack, n, toks>>
Table(r, c, f(_, _)) == [r |-> r, c |-> c, m |-> TLCEval([p \in (1..r) \X (1..c) |-> f(p[1], p[2])])]
Blank == <<0, 0, 0>>
Arg(k) == IF k = 0 THEN Table(1, 1, LAMBDA i, j : Blank) ELSE IF k > Len(Args) THEN Table(0, 0, LAMBDA i, j : Blank) ELSE Table(Args[k][1], Args[k][2], LAMBDA i, j : <<k, i, j>>)
T(x) == Table(x.c, x.r, LAMBDA i, j : x.m[<<j, i>>])
Inv(x) == Table(x.r, x.c, LAMBDA i, j : x.m[<<x.r + 1 - i, x.c + 1 - j>>])
Line(x) == Table(1, x.r * x.c, LAMBDA i, j : x.m[<<1 + ((j - 1) \div x.c), 1 + ((j - 1) % x.c)>>])
Larger(p, q) == IF p > q THEN p ELSE q
Beside(x, y, bottom) == LET h == Larger(x.r, y.r) sx == IF bottom THEN h - x.r ELSE 0 sy == IF bottom THEN h - y.r ELSE 0 IN
    Table(h, x.c + y.c, LAMBDA i, j : IF j <= x.c THEN (IF i > sx /\ i - sx <= x.r THEN x.m[<<i - sx, j>>] ELSE Blank) ELSE (IF i > sy /\ i - sy <= y.r THEN y.m[<<i - sy, j - x.c>>] ELSE Blank))
Join(s, x, y) == CASE s = "," -> Beside(x, y, FALSE) [] s = "." -> Beside(x, y, TRUE) [] s = ";" -> T(Beside(T(x), T(y), FALSE)) [] OTHER -> T(Beside(T(x), T(y), TRUE))
\* level: 1 for :, 2 for ;, 3 for ., 4 for comma, 5 for the rest
Level(s) == CASE s = ":" -> 1 [] s = ";" -> 2 [] s = "." -> 3 [] OTHER -> 4
Wrap(x, l) == IF x.l > l THEN x.s ELSE <<"(">> \o x.s \o <<")">>
Top == stack[Len(stack)]
Below == stack[Len(stack) - 1]
Digit(k) == CASE k = 0 -> "0" [] k = 1 -> "1" [] k = 2 -> "2" [] k = 3 -> "3" [] OTHER -> "4"
Push(k) == Len(stack) < MaxStack /\ stack' = Append(stack, [s |-> <<Digit(k)>>, l |-> 5, t |-> Arg(k)])
Unary(u) == stack # <<>> /\ stack' = [stack EXCEPT ![Len(stack)] = [s |-> Append(Wrap(Top, 4), u), l |-> 5, t |-> CASE u \in {"T", "t"} -> T(Top.t) [] u \in {"I", "i"} -> Inv(Top.t) [] OTHER -> Line(Top.t)]]
Paren == stack # <<>> /\ stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.s = <<"(">> \o @ \o <<")">>, !.l = 5]]
\* left operands of the same separator need no parentheses: the language has no order of association to distinguish
Binary(s) == Len(stack) >= 2 /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), [s |-> Wrap(Below, Level(s) - 1) \o <<s>> \o Wrap(Top, Level(s)), l |-> Level(s), t |-> Join(s, Below.t, Top.t)])
Init == stack = <<>> /\ n = 0 /\ toks = <<>>
Next == n < MaxOps /\ n' = n + 1 /\ UNCHANGED toks /\
    (\/ \E k \in 0..(Len(Args) + 1) : Push(k)
     \/ \E u \in {"T", "I", "*"} : Unary(u)
     \/ \E s \in {",", ".", ";", ":"} : Binary(s))
Spec == Init /\ [][Next]_vars
RNext == n < MaxOps /\ n' = n + 1 /\ UNCHANGED toks /\
    \E w \in RandomSubset(1, 1..10) :
      CASE (w \in 1..4 /\ Len(stack) < MaxStack) \/ stack = <<>> -> \E k \in RandomSubset(1, 0..(Len(Args) + 1)) : Push(k)
        [] w \in 5..8 /\ Len(stack) >= 2 -> \E s \in RandomSubset(1, {",", ".", ";", ":"}) : Binary(s)
        [] w = 9 -> Paren
        [] OTHER -> \E u \in RandomSubset(1, {"T", "I", "*", "t", "i"}) : Unary(u)
RSpec == Init /\ [][RNext]_vars
Rows(t) == [i \in 1..t.r |-> [j \in 1..t.c |-> t.m[<<i, j>>]]]
(* every cell of an argument used once in a format appears exactly once *)
Uses(k) == Cardinality({j \in 1..Len(Top.s) : Top.s[j] = Digit(k)})
Placed == stack # <<>> => \A k \in 1..Len(Args), i \in 1..3, j \in 1..3 : (i <= Args[k][1] /\ j <= Args[k][2]) =>
    Cardinality({p \in DOMAIN Top.t.m : Top.t.m[p] = <<k, i, j>>}) = Uses(k)
Emitted == (Len(stack) = 1 /\ n > 0) => Emit([s |-> Top.s, t |-> Rows(Top.t), r |-> Top.t.r, c |-> Top.t.c])
TNext == /\ Len(toks) < MaxToks /\ \E x \in Toks : toks' = Append(toks, x) /\ UNCHANGED <<stack, n>>
TSpec == Init /\ [][TNext]_vars
\* the grammar: U = digit | ( F ) | U T | U I | U *, and lists of U by each separator, comma binding tightest
IsDigit(x) == x \in {"0", "1", "2"}
RECURSIVE WF(_, _)
WF(s, l) ==     \* s derives from level l
    IF s = <<>> THEN FALSE
    ELSE IF l = 5 THEN \/ Len(s) = 1 /\ IsDigit(s[1])
                       \/ Len(s) > 1 /\ s[Len(s)] \in {"T", "I", "*"} /\ WF(Front(s), 5)
                       \/ Len(s) > 2 /\ s[1] = "(" /\ s[Len(s)] = ")" /\ WF(SubSeq(s, 2, Len(s) - 1), 1)
    ELSE \/ WF(s, l + 1)
         \/ \E k \in 2..(Len(s) - 1) : s[k] = (CASE l = 1 -> ":" [] l = 2 -> ";" [] l = 3 -> "." [] OTHER -> ",") /\ WF(SubSeq(s, 1, k - 1), l) /\ WF(SubSeq(s, k + 1, Len(s)), l + 1)
TEmitted == Emit([s |-> toks, ok |-> WF(toks, 1)])
=============================================================================
