----------------------------- MODULE ScriptLang -----------------------------
(* Semantics of the scripting language on abstract syntax.
   Numbers are exact dyadic fractions [n, d, a]; a = 1 marks a rational approximation (error below 1/100) of an
   irrational result, d = 0 an undefined one (division by zero, out of the exactly represented range, ...).
   Expressions: <<"CONST", token>>, <<"VAR", v>>, <<"KVAR", k>>, <<"SPOT">>, <<op, a>>, <<op, a, b>>.
   Conditions:  <<"CMP", op, l, r, epsToken>> (epsToken "" = default), <<"AND", a, b>>, <<"OR", a, b>>.
   Statements:  <<"ASSIGN", v, e>>, <<"PAYS", v, e>>, <<"IF", c, then>>, <<"IF", c, then, else>>. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Vars, KTokens                      \* KTokens: macro constant -> number token
Limit == 16384
U == [n |-> 0, d |-> 0, a |-> 1]
Def(x) == x.d # 0
RECURSIVE Gcd(_, _), Pow2(_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Pow2(d) == IF d = 1 THEN TRUE ELSE d % 2 = 0 /\ Pow2(d \div 2)
Mk(n, d, a) == IF d = 0 THEN U
               ELSE LET s == IF d < 0 THEN -1 ELSE 1  g == Gcd(Abs(n), Abs(d)) q == Abs(d) \div g p == (s * n) \div g
                    IN IF q > Limit \/ Abs(p) > Limit \/ ~Pow2(q) THEN U ELSE [n |-> p, d |-> q, a |-> a]
Q(n) == [n |-> n, d |-> 1, a |-> 0]
Val(t) == CASE t = "0" -> Q(0) [] t = "1" -> Q(1) [] t = "2" -> Q(2) [] t = "3" -> Q(3) [] t = "4" -> Q(4) [] t = "10" -> Q(10)
            [] t = ".5" -> Mk(1, 2, 0) [] t = "2.5" -> Mk(5, 2, 0) [] t = "0.25" -> Mk(1, 4, 0) [] t = "-1" -> Q(-1) [] t = "8" -> Q(8)
Or01(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0
Plus(x, y) == IF Def(x) /\ Def(y) THEN Mk(x.n * y.d + y.n * x.d, x.d * y.d, Or01(x.a, y.a)) ELSE U
Neg(x) == [x EXCEPT !.n = -x.n]
Minus(x, y) == Plus(x, Neg(y))
Times(x, y) == IF Def(x) /\ Def(y) THEN Mk(x.n * y.n, x.d * y.d, IF (x.n = 0 /\ x.a = 0) \/ (y.n = 0 /\ y.a = 0) THEN 0 ELSE Or01(x.a, y.a)) ELSE U
Over(x, y) == IF Def(x) /\ Def(y) /\ y.n # 0 /\ y.a = 0 THEN Mk(x.n * y.d, x.d * y.n, x.a) ELSE U
(* sign with the approximation taken into account; 9 = not decided *)
Sign(x) == IF ~Def(x) THEN 9
           ELSE IF x.a = 1 /\ Abs(x.n) * 16 < x.d THEN 9
           ELSE IF x.n > 0 THEN 1 ELSE IF x.n < 0 THEN -1 ELSE 0
Larger(x, y) == LET s == Sign(Minus(x, y)) IN IF s = 9 THEN U ELSE IF s >= 0 THEN x ELSE y
Smaller(x, y) == LET s == Sign(Minus(x, y)) IN IF s = 9 THEN U ELSE IF s >= 0 THEN y ELSE x
RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN Q(1) ELSE Times(x, PowN(x, k - 1))
PowV(x, y) == IF Def(x) /\ Def(y) /\ y.a = 0 /\ y.d = 1 /\ y.n \in 0..4 THEN PowN(x, y.n) ELSE U
Approx(n, d) == [n |-> n, d |-> d, a |-> 1]
ExpV(x) == IF ~Def(x) \/ x.a = 1 \/ x.d # 1 THEN U
           ELSE CASE x.n = 0 -> Q(1) [] x.n = 1 -> Approx(87, 32) [] x.n = -1 -> Approx(47, 128) [] x.n = 2 -> Approx(473, 64) [] OTHER -> U
LogV(x) == IF ~Def(x) \/ x.a = 1 THEN U
           ELSE CASE x = Q(1) -> Q(0) [] x = Q(2) -> Approx(89, 128) [] x = Mk(1, 2, 0) -> Approx(-89, 128) [] x = Q(3) -> Approx(141, 128)
                  [] x = Q(4) -> Approx(177, 128) [] x = Q(8) -> Approx(133, 64) [] x = Mk(1, 4, 0) -> Approx(-177, 128) [] OTHER -> U
SqrtV(x) == IF ~Def(x) \/ x.a = 1 THEN U
            ELSE CASE x = Q(0) -> x [] x = Q(1) -> x [] x = Q(4) -> Q(2) [] x = Mk(1, 4, 0) -> Mk(1, 2, 0) [] x = Q(2) -> Approx(181, 128)
                   [] x = Q(3) -> Approx(111, 64) [] OTHER -> U

RECURSIVE Ev(_, _, _), Cd(_, _, _), Ex(_, _, _), ExAll(_, _, _)
(* value of an expression in environment e at sample s = [spot, num] *)
Ev(t, e, s) ==
    CASE t[1] = "CONST" -> Val(t[2])
      [] t[1] = "VAR" -> e[t[2]]
      [] t[1] = "KVAR" -> Val(KTokens[t[2]])
      [] t[1] = "SPOT" -> s.spot
      [] t[1] = "DCFX" -> U                 \* a day count fraction (ScriptProduct)
      [] t[1] = "ADD" -> Plus(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "SUB" -> Minus(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "MUL" -> Times(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "DIV" -> Over(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "POW" -> PowV(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "MAX" -> Larger(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "MIN" -> Smaller(Ev(t[2], e, s), Ev(t[3], e, s))
      [] t[1] = "UPLUS" -> Ev(t[2], e, s)
      [] t[1] = "UMINUS" -> Neg(Ev(t[2], e, s))
      [] t[1] = "LOG" -> LogV(Ev(t[2], e, s))
      [] t[1] = "SQRT" -> SqrtV(Ev(t[2], e, s))
      [] t[1] = "EXP" -> ExpV(Ev(t[2], e, s))
(* truth of a condition: 1, 0 or 9 (not decided here) *)
Holds(op, g) == CASE op = "=" -> g = 0 [] op = "!=" -> g # 0 [] op = ">" -> g = 1 [] op = "<" -> g = -1 [] op = ">=" -> g >= 0 [] op = "<=" -> g <= 0
Cd(c, e, s) ==
    CASE c[1] = "CMP" -> LET g == Sign(Minus(Ev(c[3], e, s), Ev(c[4], e, s))) IN IF g = 9 THEN 9 ELSE IF Holds(c[2], g) THEN 1 ELSE 0
      [] c[1] = "AND" -> LET a == Cd(c[2], e, s) b == Cd(c[3], e, s) IN IF 9 \in {a, b} THEN 9 ELSE a * b
      [] c[1] = "OR" -> LET a == Cd(c[2], e, s) b == Cd(c[3], e, s) IN IF 9 \in {a, b} THEN 9 ELSE IF a + b > 0 THEN 1 ELSE 0
(* surely a finite number, as is everything it is computed from *)
RECURSIVE FinE(_, _, _), FinC(_, _, _)
FinE(t, e, s) ==
    CASE t[1] \in {"CONST", "VAR", "KVAR", "SPOT", "DCFX"} -> TRUE
      [] t[1] \in {"UPLUS", "UMINUS"} -> FinE(t[2], e, s)
      [] t[1] = "LOG" -> FinE(t[2], e, s) /\ Sign(Ev(t[2], e, s)) = 1
      [] t[1] = "SQRT" -> FinE(t[2], e, s) /\ Sign(Ev(t[2], e, s)) \in {0, 1}
      [] t[1] = "EXP" -> FinE(t[2], e, s) /\ Def(Ev(t[2], e, s)) /\ Abs(Ev(t[2], e, s).n) < 100 * Ev(t[2], e, s).d
      [] t[1] = "DIV" -> FinE(t[2], e, s) /\ FinE(t[3], e, s) /\ Sign(Ev(t[3], e, s)) \in {-1, 1}
      [] t[1] = "POW" -> FinE(t[2], e, s) /\ FinE(t[3], e, s) /\ LET a == Ev(t[2], e, s) b == Ev(t[3], e, s) IN
                         \/ Def(b) /\ b.a = 0 /\ b.d = 1 /\ b.n \in 0..9
                         \/ Sign(a) = 1 /\ Def(b) /\ Abs(b.n) < 50 * b.d
      [] OTHER -> FinE(t[2], e, s) /\ FinE(t[3], e, s)
FinC(c, e, s) == IF c[1] = "CMP" THEN FinE(c[3], e, s) /\ FinE(c[4], e, s) ELSE FinC(c[2], e, s) /\ FinC(c[3], e, s)
(* an environment maps variables to numbers, plus "ok": every condition met so far was decided, and "fin": every
   number met so far is surely finite *)
Ex(t, e0, s) ==
    LET e == IF e0.fin THEN [e0 EXCEPT !.fin = IF t[1] = "IF" THEN FinC(t[2], e0, s) ELSE FinE(t[3], e0, s)] ELSE e0 IN
    CASE t[1] = "ASSIGN" -> [e EXCEPT ![t[2]] = Ev(t[3], e, s)]
      [] t[1] = "PAYS" -> [e EXCEPT ![t[2]] = Plus(@, Over(Ev(t[3], e, s), s.num))]
      [] t[1] = "IF" -> LET g == Cd(t[2], e, s) IN
                        IF g = 9 THEN [e EXCEPT !.ok = FALSE]
                        ELSE IF g = 1 THEN ExAll(t[3], e, s)
                        ELSE IF Len(t) = 4 THEN ExAll(t[4], e, s) ELSE e
ExAll(ts, e, s) == IF ts = <<>> \/ ~e.ok THEN e ELSE ExAll(Tail(ts), Ex(Head(ts), e, s), s)
NoVars == [v \in Vars \cup {"ok", "fin"} |-> IF v \in {"ok", "fin"} THEN TRUE ELSE Q(0)]
(* events before the evaluation date: no market there, payments already made do not count *)
RECURSIVE PastAll(_, _)
Past(t, e0) == LET NoMkt == [spot |-> U, num |-> Q(1)]
                  e == IF e0.fin THEN [e0 EXCEPT !.fin = IF t[1] = "IF" THEN FinC(t[2], e0, NoMkt) ELSE FinE(t[3], e0, NoMkt)] ELSE e0 IN
              CASE t[1] = "ASSIGN" -> [e EXCEPT ![t[2]] = Ev(t[3], e, [spot |-> U, num |-> Q(1)])]
                [] t[1] = "PAYS" -> e
                [] t[1] = "IF" -> LET g == Cd(t[2], e, [spot |-> U, num |-> Q(1)]) IN
                                  IF g = 9 THEN [e EXCEPT !.ok = FALSE] ELSE IF g = 1 THEN PastAll(t[3], e) ELSE IF Len(t) = 4 THEN PastAll(t[4], e) ELSE e
PastAll(ts, e) == IF ts = <<>> \/ ~e.ok THEN e ELSE PastAll(Tail(ts), Past(Head(ts), e))

-----------------------------------------------------------------------------
(* Fuzzy semantics.  A domain is RR (any real), HH (some half line or interval, not tracked further) or a finite
   set of numbers; a comparison over a finite domain is smoothed between the neighbouring possible values of the
   difference, any other over the given width.  *)
RR == {[n |-> 0, d |-> -1, a |-> 0]}          \* markers, distinct from every set of numbers
HH == {[n |-> 1, d |-> -1, a |-> 0]}
SetOp(F(_, _), A, B) == {F(x, y) : x \in A, y \in B}
Small(D) == IF Cardinality(D) > 6 \/ U \in D \/ \E x \in D : x.a = 1 THEN HH ELSE D
Fin(D) == D # RR /\ D # HH
Zero == {Q(0)}
Dom2(op, A, B) ==
    IF Fin(A) /\ Fin(B)
    THEN CASE op = "ADD" -> Small(SetOp(Plus, A, B)) [] op = "SUB" -> Small(SetOp(Minus, A, B)) [] op = "MUL" -> Small(SetOp(Times, A, B))
           [] op = "DIV" -> IF Q(0) \in B THEN (IF Cardinality(B) > 1 THEN RR ELSE HH) ELSE Small(SetOp(Over, A, B))
           [] op = "POW" -> Small(SetOp(PowV, A, B)) [] op = "MAX" -> Small(SetOp(Larger, A, B)) [] op = "MIN" -> Small(SetOp(Smaller, A, B))
    ELSE CASE op \in {"ADD", "SUB"} -> IF RR \in {A, B} THEN RR ELSE HH
           [] op = "MUL" -> IF A = Zero \/ B = Zero THEN Zero ELSE IF RR \in {A, B} /\ HH \notin {A, B} THEN RR ELSE HH
           [] op = "DIV" -> IF A = RR /\ Fin(B) /\ B # Zero THEN RR ELSE HH
           [] op = "POW" -> IF HH \in {A, B} THEN HH ELSE RR
           [] OTHER -> HH
RECURSIVE Dm(_, _), DCd(_, _), DEx(_, _), DExAll(_, _), FCd(_, _, _, _, _), FEx(_, _, _, _, _), FExAll(_, _, _, _, _)
Map1(F(_), A) == IF Fin(A) THEN Small({F(x) : x \in A}) ELSE A
Dm(t, m) == CASE t[1] = "CONST" -> {Val(t[2])}
              [] t[1] = "VAR" -> m[t[2]]
              [] t[1] = "KVAR" -> {Val(KTokens[t[2]])}
              [] t[1] = "SPOT" -> RR
              [] t[1] = "UPLUS" -> Dm(t[2], m)
              [] t[1] = "UMINUS" -> Map1(Neg, Dm(t[2], m))
              [] t[1] \in {"LOG", "EXP"} -> IF Dm(t[2], m) = RR THEN RR ELSE HH
              [] t[1] = "SQRT" -> HH
              [] OTHER -> Dom2(t[1], Dm(t[2], m), Dm(t[3], m))
Diff(c, m) == Dom2("SUB", Dm(c[3], m), Dm(c[4], m))
Lt(x, y) == Sign(Minus(y, x)) = 1
MinOf(D) == CHOOSE x \in D : \A y \in D : ~Lt(y, x)
MaxOf(D) == CHOOSE x \in D : \A y \in D : ~Lt(x, y)
Pos(D) == {x \in D : x.n > 0}
NegS(D) == {x \in D : x.n < 0}
(* what the domain says of a condition: "T", "F" or "?" *)
DCd(c, m) ==
    CASE c[1] = "CMP" -> LET D == Diff(c, m) IN
                         IF ~Fin(D) THEN "?"
                         ELSE LET ts == {Holds(c[2], Sign(x)) : x \in D} IN IF ts = {TRUE} THEN "T" ELSE IF ts = {FALSE} THEN "F" ELSE "?"
      [] c[1] = "AND" -> LET a == DCd(c[2], m) b == DCd(c[3], m) IN IF a = "T" /\ b = "T" THEN "T" ELSE IF "F" \in {a, b} THEN "F" ELSE "?"
      [] c[1] = "OR" -> LET a == DCd(c[2], m) b == DCd(c[3], m) IN IF "T" \in {a, b} THEN "T" ELSE IF a = "F" /\ b = "F" THEN "F" ELSE "?"
Union(A, B) == IF Fin(A) /\ Fin(B) THEN Small(A \cup B) ELSE IF RR \in {A, B} THEN RR ELSE HH
DEx(t, m) ==
    CASE t[1] = "ASSIGN" -> [m EXCEPT ![t[2]] = Dm(t[3], m)]
      [] t[1] = "PAYS" -> [m EXCEPT ![t[2]] = LET D == Dm(t[3], m) IN IF D = Zero THEN @ ELSE IF D = RR \/ @ = RR THEN RR ELSE HH]
      [] t[1] = "IF" -> LET g == DCd(t[2], m)
                            a == DExAll(t[3], m)
                            b == IF Len(t) = 4 THEN DExAll(t[4], m) ELSE m
                        IN IF g = "T" THEN a ELSE IF g = "F" THEN b ELSE [v \in Vars |-> IF a[v] = b[v] THEN a[v] ELSE Union(a[v], b[v])]
DExAll(ts, m) == IF ts = <<>> THEN m ELSE DExAll(Tail(ts), DEx(Head(ts), m))

(* may the analysis meet a division by nothing but zero? (such scripts may be rejected) *)
RECURSIVE DzE(_, _), DzC(_, _), DzS(_, _), DzAll(_, _)
MaybeZero(D) == IF Fin(D) THEN Q(0) \in D ELSE D = HH
DzE(t, m) == CASE t[1] \in {"CONST", "VAR", "KVAR", "SPOT"} -> FALSE
               [] Len(t) = 2 -> DzE(t[2], m)
               [] OTHER -> DzE(t[2], m) \/ DzE(t[3], m) \/ (t[1] = "DIV" /\ MaybeZero(Dm(t[3], m)))
DzC(c, m) == IF c[1] = "CMP" THEN DzE(c[3], m) \/ DzE(c[4], m) ELSE DzC(c[2], m) \/ DzC(c[3], m)
DzS(t, m) == IF t[1] = "IF" THEN DzC(t[2], m) \/ DzAll(t[3], m) \/ (Len(t) = 4 /\ DzAll(t[4], m)) ELSE DzE(t[3], m)
DzAll(ts, m) == ts # <<>> /\ (DzS(Head(ts), m) \/ DzAll(Tail(ts), DEx(Head(ts), m)))

One == Q(1)
Half(x) == Over(x, Q(2))
Fabs(x) == IF x.n < 0 THEN Neg(x) ELSE x
Spread(x, lb, rb) == IF Lt(x, lb) THEN Q(0) ELSE IF Lt(rb, x) THEN One ELSE Over(Minus(x, lb), Minus(rb, lb))
Fly(x, lb, rb) == IF Lt(x, lb) \/ Lt(rb, x) THEN Q(0) ELSE IF x.n < 0 THEN Minus(One, Over(x, lb)) ELSE Minus(One, Over(x, rb))
(* degree of truth of "x op 0", the domain D of x and the width eps given *)
Degree(op, x, D, eps) ==
    IF ~Def(x) \/ x.a = 1 \/ D = HH THEN U
    ELSE IF Fin(D)
    THEN LET ts == {Holds(op, Sign(v)) : v \in D} IN
         IF ts = {TRUE} THEN One ELSE IF ts = {FALSE} THEN Q(0)
         ELSE CASE op = "=" -> Fly(x, IF NegS(D) = {} THEN Mk(-1, 2, 0) ELSE MaxOf(NegS(D)), IF Pos(D) = {} THEN Mk(1, 2, 0) ELSE MinOf(Pos(D)))
                [] op = ">" -> Spread(x, IF Q(0) \in D THEN Q(0) ELSE MaxOf(NegS(D)), MinOf(Pos(D)))
                [] op = ">=" -> Spread(x, MaxOf(NegS(D)), IF Q(0) \in D THEN Q(0) ELSE MinOf(Pos(D)))
    ELSE IF eps.n = 0 THEN (IF Holds(op, Sign(x)) THEN One ELSE Q(0))
    ELSE IF op = "=" THEN Fly(x, Neg(Half(eps)), Half(eps)) ELSE Spread(x, Neg(Half(eps)), Half(eps))
FCd(c, e, m, s, eps) ==
    CASE c[1] = "CMP" ->
           LET ep == IF c[5] = "" THEN eps ELSE Val(c[5])
               l == Ev(c[3], e, s) r == Ev(c[4], e, s)
               lr == Minus(l, r) rl == Minus(r, l)
               D == Diff(c, m)
               E == IF Fin(D) THEN {Neg(x) : x \in D} ELSE D
           IN (CASE c[2] = "=" -> Degree("=", lr, D, ep) [] c[2] = "!=" -> Minus(One, Degree("=", lr, D, ep))
                [] c[2] = ">" -> Degree(">", lr, D, ep) [] c[2] = ">=" -> Degree(">=", lr, D, ep)
                [] c[2] = "<" -> Degree(">", rl, E, ep) [] c[2] = "<=" -> Degree(">=", rl, E, ep))
      [] c[1] = "AND" -> Times(FCd(c[2], e, m, s, eps), FCd(c[3], e, m, s, eps))
      [] c[1] = "OR" -> LET a == FCd(c[2], e, m, s, eps) b == FCd(c[3], e, m, s, eps) IN Minus(Plus(a, b), Times(a, b))
Blend(dt, a, b) == IF a = b THEN a ELSE Plus(Times(dt, a), Times(Minus(One, dt), b))
FEx(t, e0, m, s, eps) ==
    LET e == IF e0.fin /\ t[1] = "IF" THEN [e0 EXCEPT !.fin = FinC(t[2], e0, s)] ELSE e0 IN
    CASE t[1] = "IF" -> LET dt == FCd(t[2], e, m, s, eps) IN
                        IF ~Def(dt) THEN [e EXCEPT !.ok = FALSE]
                        ELSE IF dt = One THEN FExAll(t[3], e, m, s, eps)
                        ELSE IF dt.n = 0 THEN (IF Len(t) = 4 THEN FExAll(t[4], e, m, s, eps) ELSE e)
                        ELSE LET a == FExAll(t[3], e, m, s, eps)
                                 b == IF Len(t) = 4 THEN FExAll(t[4], e, m, s, eps) ELSE e
                             IN [v \in DOMAIN e |-> IF v = "ok" THEN a.ok /\ b.ok ELSE IF v = "fin" THEN a.fin /\ b.fin ELSE Blend(dt, a[v], b[v])]
      [] OTHER -> Ex(t, e, s)
FExAll(ts, e, m, s, eps) == IF ts = <<>> \/ ~e.ok THEN e ELSE FExAll(Tail(ts), FEx(Head(ts), e, m, s, eps), DEx(Head(ts), m), s, eps)
NoDoms == [v \in Vars |-> Zero]
=============================================================================
