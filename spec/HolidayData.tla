---------------------------- MODULE HolidayData ----------------------------
(* C05.  The business-day rules applied to recorded center data (the built-in calendars as the
   implementation holds them, read from data.json), month by month over a range. *)
EXTENDS HolLib, Emit
CONSTANTS Data, Sets, Lo, Hi
VARIABLES q, lo
C(nm) == LET i == CHOOSE k \in 1..Len(Data) : Data[k].c = nm IN [h |-> ToSet(Data[i].h), w |-> ToSet(Data[i].w)]
Tab == [nm \in {Data[k].c : k \in 1..Len(Data)} |-> C(nm)]
Init == q \in Sets /\ lo = Lo
Next == lo + 40 <= Hi /\ lo' = lo + 40 /\ q' = q
Spec == Init /\ [][Next]_<<q, lo>>
cs == {Tab[q[i]] : i \in 1..Len(q)}
Wide == 60
Row == [op |-> "holrange", q |-> q, lo |-> lo, hi |-> lo + Wide,
        nx |-> [i \in 1..(Wide + 1) |-> NextBus(cs, lo + i - 1)],
        pv |-> [i \in 1..(Wide + 1) |-> PrevBus(cs, lo + i - 1)],
        ct |-> [i \in 1..(Wide + 1) |-> CountBus(cs, lo, lo + i - 1)]]
Admissible == \A i \in 1..Len(Data) : ValidCenter(Data[i].h, Data[i].w)
Emitted == Emit(Row)
=============================================================================
