------------------------------ MODULE Globals -------------------------------
(* C22.  The two global dates with scoped overrides, and the environment as a stack of entries.  A date never set
   reads as today's date (0).  Scopes are entered and left in stack order, one at a time or several at once by an
   exception; leaving a date's scope puts back what the date was on entering it. *)
EXTENDS Emit, Integers, SequencesExt
CONSTANTS NDates, MaxOps, MaxDepth, Bases
VARIABLES base, dates, stack, hist,
          outer      \* ghost: the value set outside all overrides
vars == <<base, dates, stack, hist, outer>>
Kinds == 0..1
Init == base \in Bases /\ dates = [k \in Kinds |-> 0] /\ stack = <<>> /\ hist = <<>> /\ outer = [k \in Kinds |-> 0]
\* entries innermost first: those on the stack, then the base environment's in order; an entry is <<kind, id>>
Entries(st) == [j \in 1..Len(SelectSeq(st, LAMBDA f : f.f = "env")) |-> LET e == SelectSeq(st, LAMBDA f : f.f = "env") IN <<e[Len(e) + 1 - j].k, e[Len(e) + 1 - j].v>>] \o base
OfKind(st, k) == LET e == SelectSeq(Entries(st), LAMBDA x : x[1] = k) IN [j \in 1..Len(e) |-> e[j][2]]
Log(op, k, v, d, st) == hist' = Append(hist, [op |-> op, k |-> k, v |-> v, acc |-> d[0], ev |-> d[1], a |-> OfKind(st, 0), b |-> OfKind(st, 1)])
SetDate(k, v) == LET d == [dates EXCEPT ![k] = v] IN dates' = d /\ UNCHANGED <<base, stack>>
    /\ outer' = (IF \E j \in 1..Len(stack) : stack[j].f = "date" /\ stack[j].k = k THEN outer ELSE [outer EXCEPT ![k] = v]) /\ Log("S", k, v, d, stack)
Open(k, v) == LET d == [dates EXCEPT ![k] = v] s == Append(stack, [f |-> "date", k |-> k, v |-> dates[k]]) IN
    Len(stack) < MaxDepth /\ dates' = d /\ stack' = s /\ UNCHANGED <<base, outer>> /\ Log("O", k, v, d, s)
Enter(k) == LET s == Append(stack, [f |-> "env", k |-> k, v |-> Len(hist) + 1]) IN
    Len(stack) < MaxDepth /\ stack' = s /\ UNCHANGED <<base, dates, outer>> /\ Log("V", k, Len(hist) + 1, dates, s)
RECURSIVE Unwind(_, _, _)
Unwind(d, st, n) == IF n = 0 THEN d ELSE LET f == st[Len(st)] IN Unwind(IF f.f = "date" THEN [d EXCEPT ![f.k] = f.v] ELSE d, SubSeq(st, 1, Len(st) - 1), n - 1)
Leave(op, n) == LET d == Unwind(dates, stack, n) s == SubSeq(stack, 1, Len(stack) - n) IN
    n <= Len(stack) /\ dates' = d /\ stack' = s /\ UNCHANGED <<base, outer>> /\ Log(op, 0, n, d, s)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in Kinds, v \in 1..NDates : SetDate(k, v) \/ Open(k, v)
           \/ \E k \in Kinds : Enter(k)
           \/ stack # <<>> /\ Leave("C", 1)
           \/ stack # <<>> /\ \E n \in 1..Len(stack) : Leave("X", n)
Spec == Init /\ [][Next]_vars
(* with no override of a date open, it is what was last set outside any override of it *)
Depth(j) == LET m == hist[j] IN IF m.op \in {"O", "V"} THEN 1 ELSE IF m.op \in {"C", "X"} THEN -m.v ELSE 0
RECURSIVE DepthAt(_)
DepthAt(j) == IF j = 0 THEN 0 ELSE DepthAt(j - 1) + Depth(j)
Restored == \A k \in Kinds : (\A j \in 1..Len(stack) : stack[j].f = "env" \/ stack[j].k # k) => dates[k] = outer[k]
Balanced == Len(stack) = DepthAt(Len(hist))
Emitted == Len(hist) = MaxOps => Emit([base |-> base, h |-> hist])
=============================================================================
