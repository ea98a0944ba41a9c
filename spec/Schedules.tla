----------------------------- MODULE Schedules -----------------------------
(* C07.  Schedule generation as a machine: pins are laid one at a time by stepping the tenor from the
   start (forward) or back from the maturity (backward) until the next pin would leave the period; the
   finished schedule is emitted with its adjusted variants. *)
EXTENDS IncLib, Emit
CONSTANTS Starts, Spans
VARIABLES start, end, inc, fwd, pins, done, H
vars == <<start, end, inc, fwd, pins, done, H>>

Rng == (Min(Starts) - 800)..(Max(Starts) + Max(Spans) + 800)
XA == TLCEval([h |-> TLCEval({k \in Rng : ~Weekend(k) /\ (k % 9 = 0 \/ k % 31 = 5)}), w |-> TLCEval({k \in Rng : Weekend(k) /\ k % 5 = 0})])
XB == TLCEval([h |-> TLCEval({k \in Rng : ~Weekend(k) /\ (k % 11 \in {3, 4})}), w |-> TLCEval({k \in Rng : Weekend(k) /\ k % 13 = 0})])
Table == LET a == XA b == XB IN [XA |-> a, XB |-> b]
P(k, u) == [k |-> "step", n |-> k, u |-> u, c |-> <<>>]
Pc(k, u, c) == [k |-> "step", n |-> k, u |-> u, c |-> c]
Sp(u) == [k |-> "special", u |-> u]
Incs == {<<P(1, "M")>>, <<P(3, "M")>>, <<P(6, "M")>>, <<P(1, "Y")>>, <<P(1, "W")>>, <<P(10, "CD")>>, <<P(5, "BD")>>,
         <<Pc(1, "M", <<"XA">>)>>, <<Pc(4, "BD", <<"XA", "XB">>)>>, <<Sp("IMM")>>, <<Sp("CDS")>>, <<Sp("IMM1")>>, <<P(1, "M"), Sp("EOM")>>, <<Sp("EOM"), P(1, "CD")>>}
Init == /\ start \in Starts /\ \E s \in Spans : end = start + s
        /\ inc \in Incs /\ fwd \in BOOLEAN
        /\ H = Table /\ pins = <<IF fwd THEN start ELSE end>> /\ done = FALSE
Nxt == ApplyInc(H, inc, Last(pins), fwd)
Lay == /\ ~done /\ (IF fwd THEN Nxt <= end ELSE Nxt >= start)
       /\ pins' = Append(pins, Nxt) /\ UNCHANGED <<start, end, inc, fwd, done, H>>
Close == /\ ~done /\ ~(IF fwd THEN Nxt <= end ELSE Nxt >= start)
         /\ pins' = LET t == IF fwd THEN end ELSE start
                        l == IF Last(pins) = t THEN pins ELSE Append(pins, t)
                    IN IF fwd THEN l ELSE Reverse(l)
         /\ done' = TRUE /\ UNCHANGED <<start, end, inc, fwd, H>>
Next == Lay \/ Close
Spec == Init /\ [][Next]_vars

Covers == done => (Head(pins) = start /\ Last(pins) = end)
Increasing == done => \A i \in 1..(Len(pins) - 1) : pins[i] < pins[i + 1]
Adjusted(cs) == SetToSortSeq({NextBus(cs, pins[i]) : i \in 1..Len(pins)}, <)
Row == [op |-> "sched", start |-> start, end |-> end, t |-> IncText(inc), fwd |-> fwd, pins |-> pins,
        none |-> Adjusted({}), xa |-> Adjusted({H.XA}), xab |-> Adjusted({H.XA, H.XB})]
SetupRow == [op |-> "setup",
             centers |-> <<[c |-> "XA", h |-> SetToSortSeq(H.XA.h, <), w |-> SetToSortSeq(H.XA.w, <)],
                           [c |-> "XB", h |-> SetToSortSeq(H.XB.h, <), w |-> SetToSortSeq(H.XB.w, <)]>>]
Emitted == done => Emit(Row)
EmitSetup == (pins = <<start>> /\ start = Min(Starts) /\ end = start + Min(Spans) /\ inc = <<P(1, "M")>> /\ fwd) => Emit(SetupRow)
=============================================================================
