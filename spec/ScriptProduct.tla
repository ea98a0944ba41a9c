--------------------------- MODULE ScriptProduct ---------------------------
(* C13.  A product grows row by row of its event table.  Constants and macros are registered, schedule rows are laid
   out on the calendar, dated statements are collected; then the whole is split at the evaluation date.  Beyond
   ScriptLang a statement may hold <<"MAC", name>> (a macro standing for an expression), <<"MST", name>> (one standing
   for statements) and <<"DCF", basis>> (the day count fraction from PeriodBegin to PeriodEnd). *)
EXTENDS ScriptLang, Emit
CONSTANTS Consts, Macros,       \* sets of <<name, token>>, <<name, body>> (names come in upper and lower case)
          Dated, Scheds, Bad,   \* sets of <<serial, statements>>, <<parameters, statements>>, malformed schedule texts
          EvalDates, Payoffs, MaxRows, Xa
IL == INSTANCE IncLib
VARIABLES rows, names, ks, ms, evts, ok, today, payoff
vars == <<rows, names, ks, ms, evts, ok, today, payoff>>
Up(n) == CASE n \in {"kk", "KK", "Kk"} -> "KK" [] n \in {"mac1", "MAC1", "Mac1"} -> "MAC1" [] n \in {"mac2", "MAC2"} -> "MAC2" [] n \in {"mac3", "MAC3"} -> "MAC3" [] OTHER -> n
Init == /\ rows = <<>> /\ names = {} /\ ks = <<>> /\ ms = <<>> /\ evts = <<>> /\ ok = TRUE /\ today \in EvalDates /\ payoff \in Payoffs

IsK(v) == \E i \in 1..Len(ks) : Up(ks[i][1]) = Up(v)
KTok(v) == (CHOOSE c \in {ks[i] : i \in 1..Len(ks)} : Up(c[1]) = Up(v))[2]
(* statements with the macros replaced; p.q: the period, if any; p.sub: replace constants by their values, too *)
Body(n) == LET h == SelectSeq(ms, LAMBDA m : Up(m[1]) = Up(n)) IN IF h = <<>> THEN <<"VAR", n>> ELSE h[1][2]
RECURSIVE XE(_, _), XC(_, _), XS(_, _), XAll(_, _)
XE(t, p) == CASE t[1] = "MAC" -> Body(t[2])
              [] t[1] = "DCF" -> IF p.q = <<>> THEN t ELSE <<"DCFX", t[2], p.q[1], p.q[2]>>
              [] t[1] = "VAR" -> IF p.sub THEN (IF IsK(t[2]) THEN <<"CONST", KTok(t[2])>> ELSE t) ELSE Body(t[2])
              [] t[1] \in {"CONST", "KVAR", "SPOT", "DCFX"} -> t
              [] Len(t) = 2 -> <<t[1], XE(t[2], p)>>
              [] OTHER -> <<t[1], XE(t[2], p), XE(t[3], p)>>
XC(c, p) == IF c[1] = "CMP" THEN <<"CMP", c[2], XE(c[3], p), XE(c[4], p), c[5]>> ELSE <<c[1], XC(c[2], p), XC(c[3], p)>>
XS(t, p) == CASE t[1] = "MST" -> Body(t[2])
              [] t[1] = "IF" -> << (IF Len(t) = 4 THEN <<"IF", XC(t[2], p), XAll(t[3], p), XAll(t[4], p)>> ELSE <<"IF", XC(t[2], p), XAll(t[3], p)>>) >>
              [] OTHER -> << <<t[1], t[2], XE(t[3], p)>> >>
XAll(ts, p) == IF ts = <<>> THEN <<>> ELSE XS(Head(ts), p) \o XAll(Tail(ts), p)

(* collected statements: a sequence of <<serial, statements>> by date *)
RECURSIVE AddEv(_, _, _)
AddEv(es, d, st) == IF es = <<>> THEN << <<d, st>> >>
                    ELSE IF es[1][1] = d THEN << <<d, es[1][2] \o st>> >> \o Tail(es)
                    ELSE IF es[1][1] > d THEN << <<d, st>> >> \o es
                    ELSE <<es[1]>> \o AddEv(Tail(es), d, st)
(* schedule parameters: a sequence of <<name, value>> in any order *)
Par(ps, n, dflt) == LET h == SelectSeq(ps, LAMBDA q : q[1] = n) IN IF h = <<>> THEN dflt ELSE h[Len(h)][2]
RECURSIVE Pins(_, _, _)
Pins(inc, d, end) == LET n == IL!ApplyInc([XA |-> Xa], inc, d, TRUE) IN IF n >= end THEN (IF d = end THEN <<d>> ELSE <<d, end>>) ELSE <<d>> \o Pins(inc, n, end)
Adjust(ps, pins) == IF Par(ps, "BizRule", "Unadjusted") = "Unadjusted" THEN pins
                    ELSE LET cs == IF Par(ps, "CALENDAR", "") = "XA" THEN {Xa} ELSE {}
                         IN SetToSortSeq({IL!NextBus(cs, pins[i]) : i \in 1..Len(pins)}, <)
Layout(ps) == Adjust(ps, Pins(Par(ps, "FREQ", <<>>), Par(ps, "START", 0), Par(ps, "END", 0)))
Complete(ps) == \A n \in {"START", "END", "FREQ"} : \E i \in 1..Len(ps) : ps[i][1] = n
RECURSIVE Lay(_, _, _, _, _)
Lay(es, ps, pins, st, k) ==
    IF k >= Len(pins) THEN es
    ELSE Lay(AddEv(es, IF Par(ps, "FIXING", "END") = "BEGIN" THEN pins[k] ELSE pins[k + 1], XAll(st, [q |-> <<pins[k], pins[k + 1]>>, sub |-> FALSE])), ps, pins, st, k + 1)

Put(r) == ok /\ Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED <<today, payoff>>
Reject == ok' = FALSE /\ UNCHANGED <<names, ks, ms, evts>>
Register(n) == Up(n) \notin names /\ evts = <<>>
AddConst(c) == Put(<<"const", c[1], c[2]>>) /\ (IF Register(c[1]) THEN names' = names \cup {Up(c[1])} /\ ks' = Append(ks, c) /\ UNCHANGED <<ms, evts, ok>> ELSE Reject)
AddMacro(m) == Put(<<"macro", m[1], m[2]>>) /\ (IF Register(m[1]) THEN names' = names \cup {Up(m[1])} /\ ms' = Append(ms, m) /\ UNCHANGED <<ks, evts, ok>> ELSE Reject)
(* a macro standing for statements must have been registered as such to make sense *)
IsM(n) == \E i \in 1..Len(ms) : Up(ms[i][1]) = Up(n)
Sensible(st) == \A i \in 1..Len(st) : st[i][1] = "MST" => IsM(st[i][2])
AddDated(d) == Sensible(d[2]) /\ Put(<<"date", d[1], d[2]>>) /\ evts' = AddEv(evts, d[1], XAll(d[2], [q |-> <<>>, sub |-> FALSE])) /\ UNCHANGED <<names, ks, ms, ok>>
AddSched(s) == Put(<<"sched", s[1], s[2]>>) /\ (IF Complete(s[1]) THEN evts' = Lay(evts, s[1], Layout(s[1]), s[2], 1) /\ UNCHANGED <<names, ks, ms, ok>> ELSE Reject)
AddBad(t) == Put(<<"bad", t>>) /\ Reject
Next == \/ \E c \in Consts : AddConst(c)
        \/ \E m \in Macros : AddMacro(m)
        \/ \E d \in Dated : AddDated(d)
        \/ \E s \in Scheds : AddSched(s)
        \/ \E t \in Bad : AddBad(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE VE(_), VC(_), VS(_), VAll(_)
VE(t) == CASE t[1] = "VAR" -> <<t[2]>> [] t[1] \in {"CONST", "SPOT", "DCF", "DCFX", "KVAR"} -> <<>>
           [] Len(t) = 2 -> VE(t[2]) [] OTHER -> VE(t[2]) \o VE(t[3])
VC(c) == IF c[1] = "CMP" THEN VE(c[3]) \o VE(c[4]) ELSE VC(c[2]) \o VC(c[3])
VS(t) == IF t[1] = "IF" THEN VC(t[2]) \o VAll(t[3]) \o (IF Len(t) = 4 THEN VAll(t[4]) ELSE <<>>) ELSE <<t[2]>> \o VE(t[3])
VAll(ts) == IF ts = <<>> THEN <<>> ELSE VS(Head(ts)) \o VAll(Tail(ts))
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Dedup(Tail(s), seen) ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s)})
AllStmts(es) == FoldSeq(LAMBDA x, a : a \o x[2], <<>>, es)
VarOrder == Dedup(SelectSeq(VAll(AllStmts(evts)), LAMBDA v : ~IsK(v)), {})
History == PastAll(XAll(AllStmts(SelectSeq(evts, LAMBDA x : x[1] < today)), [q |-> <<>>, sub |-> TRUE]), NoVars)
PayIdx == LET h == {i \in 1..Len(VarOrder) : VarOrder[i] = payoff} IN IF h = {} THEN Len(VarOrder) ELSE Min(h)
HasFuture == evts # <<>> /\ Last(evts)[1] >= today

(* events are in strictly increasing date order whatever the order of the rows, and joining loses nothing *)
Ordered == \A i, j \in 1..Len(evts) : i < j => evts[i][1] < evts[j][1]
Kept == ok => Len(AllStmts(evts)) >= Len(SelectSeq(rows, LAMBDA r : r[1] = "date"))
Row == [op |-> "product", rows |-> rows, today |-> today, payoff |-> payoff, ok |-> ok,
        events |-> [i \in 1..Len(evts) |-> [d |-> evts[i][1], st |-> evts[i][2]]],
        vars |-> VarOrder, init |-> [i \in 1..Len(VarOrder) |-> LET x == History[VarOrder[i]] IN IF ~History.ok \/ ~Def(x) \/ x.a = 1 THEN <<>> ELSE <<x.n, x.d>>],
        pay |-> PayIdx]
Emitted == (rows # <<>> /\ (ok => evts # <<>>)) => Emit(Row)
=============================================================================
