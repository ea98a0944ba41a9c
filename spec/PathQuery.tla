----------------------------- MODULE PathQuery ------------------------------
(* C25.  Queries on a recorded history: times are quarters of a day, values integers.
   Clamped expectation; probability of being in a range with linear ramps outside it; the product of those
   probabilities over the monitored times that have a fixing, the last one strictly before the end. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS NTimes, Vals, Ramps, Steps, All
VARIABLES fix, q
vars == <<fix, q>>
Times == 1..NTimes
Fixes == [Times -> Vals \cup {"none"}]
Queries == [lo : Vals, hi : Vals, ramp : Ramps, from : Times, to : 1..(NTimes + 1), step : Steps, at : Times]
Ok(r) == r.lo <= r.hi
Init == \/ All /\ fix \in [Times -> {[has |-> FALSE, v |-> 0]} \cup {[has |-> TRUE, v |-> x] : x \in Vals}] /\ q \in {r \in Queries : Ok(r)}
        \/ ~All /\ fix \in {f \in RandomSubset(2000, [Times -> {[has |-> FALSE, v |-> 0]} \cup {[has |-> TRUE, v |-> x] : x \in Vals}]) : TRUE} /\ q \in {r \in RandomSubset(20, Queries) : Ok(r)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Clamp(x) == IF x < q.lo THEN q.lo ELSE IF x > q.hi THEN q.hi ELSE x
\* over the ramp width (or 1)
Den == IF q.ramp = 0 THEN 1 ELSE q.ramp
Dist(x) == IF x < q.lo THEN q.lo - x ELSE IF x > q.hi THEN x - q.hi ELSE 0
InRange(x) == IF Dist(x) = 0 THEN Den ELSE IF Dist(x) >= q.ramp THEN 0 ELSE q.ramp - Dist(x)
Seen == {t \in q.from..(q.to - 1) : (t - q.from) % q.step = 0 /\ t \in Times /\ fix[t].has}
RECURSIVE Product(_)
Product(S) == IF S = {} THEN 1 ELSE LET t == CHOOSE t \in S : TRUE IN InRange(fix[t].v) * Product(S \ {t})
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
AllIn == <<Product(Seen), Pow(Den, Cardinality(Seen))>>
Probability == AllIn[1] >= 0 /\ AllIn[1] <= AllIn[2] /\ (q.ramp = 0 => AllIn[1] = (IF \A t \in Seen : Dist(fix[t].v) = 0 THEN 1 ELSE 0))
Emitted == Emit([f |-> [t \in Times |-> IF fix[t].has THEN <<fix[t].v>> ELSE <<>>], q |-> q, all |-> AllIn,
                 e |-> IF fix[q.at].has THEN <<Clamp(fix[q.at].v), InRange(fix[q.at].v), Den>> ELSE <<>>])
=============================================================================
