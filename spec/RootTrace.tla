------------------------------ MODULE RootTrace ------------------------------
(* Searches recorded from the code, as orders and signs: event e is <<rank of x, sign of y, widths>>, where widths is the set of pairs of events whose distance
   is the reported width of the bracket after it, or {} while none is reported.  A search that follows Roots is printed. *)
EXTENDS Emit, Integers, Sequences
CONSTANTS Traces      \* {[id |-> Nat, n0 |-> Nat, ev |-> <<...>>]}: the first n0 events are the bracket given at the start, if any
VARIABLES t, i, br
vars == <<t, i, br>>
Ev == t.ev
X(e) == Ev[e][1]
Y(e) == Ev[e][2]
Init == t \in Traces /\ i = t.n0 /\ br = (IF t.n0 = 2 THEN <<1, 2>> ELSE <<>>)
Inside(e) == \/ X(br[1]) <= X(e) /\ X(e) <= X(br[2])
             \/ X(br[2]) <= X(e) /\ X(e) <= X(br[1])
Fits(a, b, e) == Y(a) * Y(b) <= 0 /\ (<<a, b>> \in Ev[e][3] \/ <<b, a>> \in Ev[e][3])
Hunt == /\ br = <<>> /\ i < Len(Ev)
        /\ IF Ev[i + 1][3] = {} THEN /\ \A e \in 1..i : Y(e) * Y(i + 1) > 0 \/ i = 0
                                     /\ br' = <<>>
           ELSE \E e \in 1..i : Fits(e, i + 1, i + 1) /\ br' = <<e, i + 1>>
        /\ i' = i + 1 /\ t' = t
Narrow == /\ br # <<>> /\ i < Len(Ev) /\ Inside(i + 1)
          /\ \E s \in 1..2 : Fits(br[s], i + 1, i + 1) /\ br' = <<br[s], i + 1>>
          /\ i' = i + 1 /\ t' = t
Next == Hunt \/ Narrow
Spec == Init /\ [][Next]_vars
Emitted == i = Len(Ev) => Emit([id |-> t.id])
=============================================================================
