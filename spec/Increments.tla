----------------------------- MODULE Increments -----------------------------
(* C06.  Increments applied from a range of dates in both directions.  The machine visits the
   dates of a range; in each state every increment of Incs is applied forward and backward. *)
EXTENDS IncLib, Emit
CONSTANTS Lo, Hi, Stride, Thorough
VARIABLES n, H, IncSeq     \* H, IncSeq: tables kept in the state (evaluated once)

\* two test centers with dense irregular holidays and working weekends
Rng == (Lo - 1500)..(Hi + 1500)
XA == TLCEval([h |-> TLCEval({k \in Rng : ~Weekend(k) /\ (k % 9 = 0 \/ k % 31 = 5)}), w |-> TLCEval({k \in Rng : Weekend(k) /\ k % 5 = 0})])
XB == TLCEval([h |-> TLCEval({k \in Rng : ~Weekend(k) /\ (k % 11 \in {3, 4})}), w |-> TLCEval({k \in Rng : Weekend(k) /\ k % 13 = 0})])
Table == LET a == XA b == XB IN [XA |-> a, XB |-> b, xa |-> a, Xb |-> b]

P(k, u) == [k |-> "step", n |-> k, u |-> u, c |-> <<>>]
Pc(k, u, c) == [k |-> "step", n |-> k, u |-> u, c |-> c]
Sp(u) == [k |-> "special", u |-> u]
Base == {<<Sp(u)>> : u \in {"IMM", "IMM1", "CDS", "EOM"}}
   \cup {<<P(k, u)>> : k \in {0, 1, 2, 3, 5, 11, 12, 13, 25}, u \in {"Y", "M", "W", "BD", "CD"}}
   \cup {<<Pc(k, u, c)>> : k \in {0, 1, 2, 7}, u \in {"Y", "M", "W", "BD", "CD"}, c \in {<<"XA">>, <<"XB">>, <<"XA", "XB">>, <<"Xb", "xa">>}}
   \cup {<<Sp("IMM"), P(2, "BD")>>, <<P(1, "M"), Sp("CDS")>>, <<Pc(1, "M", <<"XA">>), P(3, "CD")>>, <<P(3, "CD"), Pc(1, "M", <<"XA">>)>>,
         <<Sp("EOM"), P(1, "CD")>>, <<P(1, "CD"), Sp("EOM")>>, <<P(2, "W"), P(1, "Y"), Sp("IMM1")>>, <<Sp("CDS"), Sp("IMM"), Sp("EOM")>>,
         <<Sp("IMM"), Sp("IMM")>>, <<P(6, "M"), Pc(2, "BD", <<"XB", "XA">>)>>}
Aliases == {<<P(2, u)>> : u \in DOMAIN StepUnits} \cup {<<Sp(u)>> : u \in DOMAIN Specials}
Incs == Base \cup Aliases
Texts == [i \in 1..Len(IncSeq) |-> IncText(IncSeq[i])]

Bad == {"", "M", "3", "3Q", "3DAY", "D", "IMM2", "-1M", "1.5M", "3M;ZZ", "1M2", "M3", "3M;XA ZZ", "+1M", "EOY", "X&", "1M&Q", "1M&&Q", "3 ; XA"}
\* single steps with zero parts never move, so they are left out of the strictness invariant
Init == n = Lo - 1 /\ H = Table /\ IncSeq = SetToSeq(Incs)
Visit == n = Lo - 1 /\ n' \in {k \in Lo..Hi : (k - Lo) % Stride = 0} /\ UNCHANGED <<H, IncSeq>>
Next == Visit
Spec == Init /\ [][Next]_<<n, H, IncSeq>>

\* special days: nothing of the family lies strictly between
Strict == \A u \in {"IMM", "IMM1", "CDS"} :
    LET f == NextSpecial(u, n) b == PrevSpecial(u, n) IN
       /\ f > n /\ b < n
       /\ \A r \in Around(n, u) : ~(r > n /\ r < f) /\ ~(r < n /\ r > b)
       /\ u # "IMM1" => (Civil(f).m % 3 = 0 /\ Civil(b).m % 3 = 0)
Rows == [op |-> "inc", n |-> n,
         f |-> [i \in 1..Len(IncSeq) |-> ApplyInc(H, IncSeq[i], n, TRUE)],
         b |-> [i \in 1..Len(IncSeq) |-> ApplyInc(H, IncSeq[i], n, FALSE)]]
SetupRow == [op |-> "setup", texts |-> Texts, bad |-> SetToSeq(Bad),
             centers |-> <<[c |-> "XA", h |-> SetToSortSeq(H.XA.h, <), w |-> SetToSortSeq(H.XA.w, <)],
                           [c |-> "XB", h |-> SetToSortSeq(H.XB.h, <), w |-> SetToSortSeq(H.XB.w, <)]>>]
Emitted == IF n < Lo THEN Emit(SetupRow) ELSE Emit(Rows)
=============================================================================
