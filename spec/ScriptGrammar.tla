--------------------------- MODULE ScriptGrammar ---------------------------
(* The grammar of script events over token sequences, as a recogniser that builds the statement tree.

     event  ::= stmt*
     stmt   ::= IF cond THEN stmt* [ELSE stmt*] END  |  var = expr  |  var PAYS expr
     cond   ::= conj (OR conj)*           conj ::= prim (AND prim)*
     prim   ::= ( cond )  |  expr cmp expr ({;,:} number)*      (a primary starting with "(" is a condition)
     expr   ::= term ({+,-} term)*        term ::= pow ({*,/} pow)*       pow ::= un (^ un)*
     un     ::= {+,-} un  |  ( expr )  |  number  |  SPOT()  |  f(expr)  |  MIN/MAX(expr,expr,...)
              | DCF(basis,date,date)  |  var  |  const
   All binary operators associate to the left.  Comparisons are trees over the difference of both sides:
   a > b is GT(a-b), a < b is GT(b-a), a >= b is GE(a-b), a <= b is GE(b-a), a = b is EQ(a-b), a != b is NOT(EQ(a-b)).
   A parse result is [ok, t, i]: success, tree, next position. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Numbers == {"1", "2.5", ".5", "3.", "1e2"}                  \* number tokens
BadNumbers == {"1x", "1.2.3", "1e"}                         \* start like a number, are none
Variables == {"x", "y", "_z", "spots", "end1"}
Constants == {"k"}                                          \* macro constants: readable, never assignable
Keywords == {"IF", "END", "THEN", "ELSE", "DCF", "PAYS", "AND", "OR", "SPOT", "MAX", "MIN", "LOG", "SQRT", "EXP"}
Symbols == {"(", ")", "+", "-", "*", "/", "^", ",", ";", ":", "=", "!=", "<", ">", "<=", ">="}
Comparators == {"=", "!=", "<", ">", "<=", ">="}

Fail == [ok |-> FALSE, t |-> <<"-">>, i |-> 0]
Ok(t, i) == [ok |-> TRUE, t |-> t, i |-> i]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "<end>"
IsVarName(w) == w \in Variables \cup Constants

RECURSIVE PExpr(_, _), PExprT(_, _, _), PTerm(_, _), PTermT(_, _, _), PPow(_, _), PPowT(_, _, _), PUn(_, _),
          PArgs(_, _, _), PCond(_, _), PCondT(_, _, _), PConj(_, _), PConjT(_, _, _), PPrim(_, _), POpt(_, _, _),
          PStmt(_, _), PStmts(_, _, _, _), PPiece(_, _, _)

PExpr(s, i) == LET r == PTerm(s, i) IN IF r.ok THEN PExprT(s, r.t, r.i) ELSE Fail
PExprT(s, l, i) == IF At(s, i) \in {"+", "-"}
                   THEN LET r == PTerm(s, i + 1) IN
                        IF r.ok THEN PExprT(s, <<IF s[i] = "+" THEN "ADD" ELSE "SUB", l, r.t>>, r.i) ELSE Fail
                   ELSE Ok(l, i)
PTerm(s, i) == LET r == PPow(s, i) IN IF r.ok THEN PTermT(s, r.t, r.i) ELSE Fail
PTermT(s, l, i) == IF At(s, i) \in {"*", "/"}
                   THEN LET r == PPow(s, i + 1) IN
                        IF r.ok THEN PTermT(s, <<IF s[i] = "*" THEN "MUL" ELSE "DIV", l, r.t>>, r.i) ELSE Fail
                   ELSE Ok(l, i)
PPow(s, i) == LET r == PUn(s, i) IN IF r.ok THEN PPowT(s, r.t, r.i) ELSE Fail
PPowT(s, l, i) == IF At(s, i) = "^"
                  THEN LET r == PUn(s, i + 1) IN IF r.ok THEN PPowT(s, <<"POW", l, r.t>>, r.i) ELSE Fail
                  ELSE Ok(l, i)
(* the arguments of a function from position i (after the opening parenthesis), at least one *)
PArgs(s, i, acc) == LET r == PExpr(s, i) IN
                    IF ~r.ok THEN Fail
                    ELSE IF At(s, r.i) = "," THEN PArgs(s, r.i + 1, Append(acc, r.t))
                    ELSE IF At(s, r.i) = ")" THEN Ok(Append(acc, r.t), r.i + 1)
                    ELSE Fail
(* a DCF argument: the tokens up to the next comma or closing parenthesis *)
PPiece(s, i, acc) == IF At(s, i) \in {",", ")", "(", "<end>"} THEN Ok(acc, i) ELSE PPiece(s, i + 1, acc \o s[i])
DcfBases == {"ACT/365F"}
DcfDates == {"2022-01-01", "2023-01-01"}
PDcf(s, i) == IF At(s, i) # "(" THEN Fail
              ELSE LET b == PPiece(s, i + 1, "")
                       d1 == IF At(s, b.i) = "," THEN PPiece(s, b.i + 1, "") ELSE Fail
                       d2 == IF d1.ok /\ At(s, d1.i) = "," THEN PPiece(s, d1.i + 1, "") ELSE Fail
                   IN IF d2.ok /\ At(s, d2.i) = ")" /\ b.t \in DcfBases /\ d1.t \in DcfDates /\ d2.t \in DcfDates
                      THEN Ok(<<"DCF", b.t, d1.t, d2.t>>, d2.i + 1) ELSE Fail
Fold(f, as) == FoldSeq(LAMBDA a, l : <<f, l, a>>, as[1], Tail(as))
PUn(s, i) ==
    LET w == At(s, i) IN
    IF w \in {"+", "-"} THEN LET r == PUn(s, i + 1) IN IF r.ok THEN Ok(<<IF w = "+" THEN "UPLUS" ELSE "UMINUS", r.t>>, r.i) ELSE Fail
    ELSE IF w = "(" THEN LET r == PExpr(s, i + 1) IN IF r.ok /\ At(s, r.i) = ")" THEN Ok(r.t, r.i + 1) ELSE Fail
    ELSE IF w \in Numbers THEN Ok(<<"CONST", w>>, i + 1)
    ELSE IF w = "SPOT" THEN IF At(s, i + 1) = "(" /\ At(s, i + 2) = ")" THEN Ok(<<"SPOT">>, i + 3) ELSE Fail
    ELSE IF w \in {"LOG", "SQRT", "EXP"}
         THEN LET r == IF At(s, i + 1) = "(" THEN PArgs(s, i + 2, <<>>) ELSE Fail IN
              IF r.ok /\ Len(r.t) = 1 THEN Ok(<<w, r.t[1]>>, r.i) ELSE Fail
    ELSE IF w \in {"MAX", "MIN"}
         THEN LET r == IF At(s, i + 1) = "(" THEN PArgs(s, i + 2, <<>>) ELSE Fail IN
              IF r.ok /\ Len(r.t) >= 2 THEN Ok(Fold(w, r.t), r.i) ELSE Fail
    ELSE IF w = "DCF" THEN PDcf(s, i + 1)
    ELSE IF w \in Variables THEN Ok(<<"VAR", w>>, i + 1)
    ELSE IF w \in Constants THEN Ok(<<"KVAR", w>>, i + 1)
    ELSE Fail

POpt(s, i, eps) == IF At(s, i) \in {";", ":"}
                   THEN IF At(s, i + 1) \in Numbers THEN POpt(s, i + 2, s[i + 1]) ELSE Fail
                   ELSE Ok(eps, i)
Compare(c, l, r, e) == CASE c = "=" -> <<"EQ", e, <<"SUB", l, r>>>>
                         [] c = "!=" -> <<"NOT", <<"EQ", e, <<"SUB", l, r>>>>>>
                         [] c = ">" -> <<"GT", e, <<"SUB", l, r>>>>
                         [] c = "<" -> <<"GT", e, <<"SUB", r, l>>>>
                         [] c = ">=" -> <<"GE", e, <<"SUB", l, r>>>>
                         [] c = "<=" -> <<"GE", e, <<"SUB", r, l>>>>
PPrim(s, i) == IF At(s, i) = "("
               THEN LET r == PCond(s, i + 1) IN IF r.ok /\ At(s, r.i) = ")" THEN Ok(r.t, r.i + 1) ELSE Fail
               ELSE LET l == PExpr(s, i)
                        c == IF l.ok THEN At(s, l.i) ELSE ""
                        r == IF c \in Comparators THEN PExpr(s, l.i + 1) ELSE Fail
                        o == IF r.ok THEN POpt(s, r.i, "-1") ELSE Fail
                    IN IF o.ok THEN Ok(Compare(c, l.t, r.t, o.t), o.i) ELSE Fail
PConj(s, i) == LET r == PPrim(s, i) IN IF r.ok THEN PConjT(s, r.t, r.i) ELSE Fail
PConjT(s, l, i) == IF At(s, i) = "AND" THEN LET r == PPrim(s, i + 1) IN IF r.ok THEN PConjT(s, <<"AND", l, r.t>>, r.i) ELSE Fail
                   ELSE Ok(l, i)
PCond(s, i) == LET r == PConj(s, i) IN IF r.ok THEN PCondT(s, r.t, r.i) ELSE Fail
PCondT(s, l, i) == IF At(s, i) = "OR" THEN LET r == PConj(s, i + 1) IN IF r.ok THEN PCondT(s, <<"OR", l, r.t>>, r.i) ELSE Fail
                   ELSE Ok(l, i)

(* statements up to (not including) a token of stop *)
PStmts(s, i, acc, stop) == IF At(s, i) \in stop THEN Ok(acc, i)
                           ELSE LET r == PStmt(s, i) IN IF r.ok THEN PStmts(s, r.i, Append(acc, r.t), stop) ELSE Fail
PStmt(s, i) ==
    IF At(s, i) = "IF"
    THEN LET c == PCond(s, i + 1)
             a == IF c.ok /\ At(s, c.i) = "THEN" THEN PStmts(s, c.i + 1, <<>>, {"ELSE", "END"}) ELSE Fail
             b == IF a.ok /\ At(s, a.i) = "ELSE" THEN PStmts(s, a.i + 1, <<>>, {"END"}) ELSE Fail
         IN IF ~a.ok THEN Fail
            ELSE IF At(s, a.i) = "END" THEN Ok(<<"IF", c.t, a.t>>, a.i + 1)
            ELSE IF b.ok THEN Ok(<<"IF", c.t, a.t, b.t>>, b.i + 1) ELSE Fail
    ELSE IF At(s, i) \in Variables /\ At(s, i + 1) \in {"=", "PAYS"}
         THEN LET r == PExpr(s, i + 2) IN
              IF r.ok THEN Ok(<<IF s[i + 1] = "=" THEN "ASSIGN" ELSE "PAYS", s[i], r.t>>, r.i) ELSE Fail
         ELSE Fail
Event(s) == PStmts(s, 1, <<>>, {"<end>"})
=============================================================================
