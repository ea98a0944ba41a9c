---------------------------- MODULE ScriptParse ----------------------------
(* C08.  Texts as a machine: from given token sequences, tokens are inserted, removed, replaced or the text
   cut; every text reached is judged by the grammar (its tree, or rejected). *)
EXTENDS ScriptGrammar, Emit
CONSTANTS Texts, Alphabet, MaxEdits
VARIABLES s, n
vars == <<s, n>>
Init == s \in Texts /\ n = 0
Edit(t) == n < MaxEdits /\ s' = t /\ n' = n + 1
Insert == \E p \in 0..Len(s), a \in Alphabet : Edit(SubSeq(s, 1, p) \o <<a>> \o SubSeq(s, p + 1, Len(s)))
Drop == \E p \in 1..Len(s) : Edit(SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s)))
Replace == \E p \in 1..Len(s), a \in Alphabet : Edit([s EXCEPT ![p] = a])
Cut == \E p \in 0..(Len(s) - 1) : Edit(SubSeq(s, 1, p))
Next == Insert \/ Drop \/ Replace \/ Cut
Spec == Init /\ [][Next]_vars

(* random walks for simulation: one random edit at a time *)
Drawn(S) == IF Len(s) >= 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE    \* depends on the state: drawn anew in each
RInsert == \E p \in {RandomElement(0..Len(s))}, a \in {Drawn(Alphabet)} : Edit(SubSeq(s, 1, p) \o <<a>> \o SubSeq(s, p + 1, Len(s)))
RReplace == Len(s) > 0 /\ \E p \in {RandomElement(1..Len(s))}, a \in {Drawn(Alphabet)} : Edit([s EXCEPT ![p] = a])
RRemove == Len(s) > 0 /\ \E p \in {RandomElement(1..Len(s))} : Edit(SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s)))
RMove == Len(s) > 1 /\ \E p \in {RandomElement(1..Len(s))}, q \in {RandomElement(1..Len(s))} : Edit([s EXCEPT ![p] = s[q], ![q] = s[p]])
RSplice == \E t \in {Drawn(Texts)}, p \in {RandomElement(0..Len(s))} : Len(s) < 60 /\ Edit(SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s)))
RNext == RInsert \/ RReplace \/ RRemove \/ RMove \/ RSplice
RSpec == Init /\ [][RNext]_vars

Verdict == Event(s)
(* sanity of the grammar itself: what parses consumes everything, a sentence stays one when repeated *)
Consumes == LET v == Verdict IN v.ok => v.i = Len(s) + 1
Row == LET v == Verdict IN [op |-> "parse", s |-> s, ok |-> v.ok, t |-> IF v.ok THEN v.t ELSE <<>>]
Emitted == Emit(Row)
=============================================================================
