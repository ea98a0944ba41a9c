----------------------------- MODULE ClockEdges -----------------------------
(* C03.  Forward shifts by sixteenths of a day (exact in binary), comparisons, rejected readings,
   and times of day on every kind of date. *)
EXTENDS CalLib, Emit
VARIABLE q
Base == 44000
Shift == {[op |-> "shift", n |-> Base, a |-> a, k |-> k, x |-> Base + (a + k) \div 16, f |-> (a + k) % 16] :
            a \in 0..15, k \in (1..50) \cup {160, 161, 16 * 365, 16 * 365 + 7}}
Cmp == {[op |-> "cmp", n1 |-> n1, s1 |-> s1, n2 |-> n2, s2 |-> s2,
         c |-> IF n1 # n2 THEN (IF n1 < n2 THEN -1 ELSE 1) ELSE IF s1 = s2 THEN 0 ELSE IF s1 < s2 THEN -1 ELSE 1,
         days |-> n1 - n2, secs |-> s1 - s2] :
            n1, n2 \in {Base, Base + 1, Base + 40}, s1, s2 \in {0, 1, 43199, 43200, 43201, 86399}}
\* construction from h:m:s: accepted exactly when the reading is inside the day
Bad == {[op |-> "hms", h |-> h, m |-> m, s |-> s, ok |-> (LET t == 3600 * h + 60 * m + s IN t >= 0 /\ t < 86400)] :
            h \in {-1, 0, 23, 24, 25, 47}, m \in {-1, 0, 59, 60}, s \in {-1, 0, 59, 60}}
\* text hh:mm[:ss]
Two(x) == IF x < 10 THEN "0" \o ToString(x) ELSE ToString(x)
Txt == {[op |-> "txt", t |-> "2021-03-04 " \o Two(h) \o ":" \o Two(m) \o ":" \o Two(s),
         ok |-> h < 24 /\ m < 60 /\ s < 60, n |-> Serial(2021, 3, 4), sec |-> 3600 * h + 60 * m + s] :
            h \in {0, 9, 11, 23, 24, 59}, m \in {0, 1, 59, 60, 99}, s \in {0, 11, 59, 60, 61}}
Txt2 == {[op |-> "txt", t |-> "2021-03-04 " \o Two(h) \o ":" \o Two(m),
         ok |-> h < 24 /\ m < 60, n |-> Serial(2021, 3, 4), sec |-> 3600 * h + 60 * m] :
            h \in {0, 9, 23, 24}, m \in {0, 1, 59, 60}}
Txt3 == {[op |-> "txt", t |-> x, ok |-> FALSE, n |-> 0, sec |-> 0] :
            x \in {"2021-03-04 12", "2021-03-04 1:2:3:4", "2021-03-04 a:b", "2021-03-04 12:xx", "hello", "2021-03-04 ", "12:30", "", "2021-03 12:30", "2021-03-04 :"}}
          \cup {[op |-> "txt", t |-> "2021-03-04", ok |-> TRUE, n |-> Serial(2021, 3, 4), sec |-> 0]}
Frac == {[op |-> "frac", a |-> a, ok |-> a < 16] : a \in {0, 8, 15, 16, 17, 32}}
\* the day changes every 86,400,000 ms: (day, ms of day) on days across the range
DaysMs == {[op |-> "ms", n |-> n, ms |-> ms] : n \in {25569, 25570, 44000, 48976, 60000, 91089},
             ms \in {0, 1, 2, 999, 1000, 1001, 11000, 12345678, 43199999, 43200000, 43200001, 86399000, 86399999} \cup {7919 * i : i \in 1..400}}
Init == q \in Shift \cup Cmp \cup Bad \cup Txt \cup Txt2 \cup Txt3 \cup Frac \cup DaysMs
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q
Emitted == Emit(q)
=============================================================================
