------------------------------ MODULE Fixings -------------------------------
(* C25.  Recorded fixings and their lookup.  An environment is a stack of fixing accesses, the innermost one answers;
   the global store keeps one history per index.  Index i may have an inverse (Inv[i] # 0): its fixing is the recorded
   one or, failing that, one over the inverse's.  Spell(i) spellings of a name are the same name. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS NIdx, Inv, NTimes, Vals, MaxOps, MaxDepth
Idx == 1..NIdx
Times == 1..NTimes
None == [i \in Idx |-> [t \in Times |-> 0]]       \* 0: nothing recorded
VARIABLES stack, glob, hist
vars == <<stack, glob, hist>>
Init == stack = <<>> /\ glob = None /\ hist = <<>>
Cur(st) == IF st = <<>> THEN None ELSE st[Len(st)]
\* <<v, 1>>: the value v, <<v, -1>>: one over v, <<0, 0>>: no fixing
Answer(rec, i, t) == IF rec[i][t] # 0 THEN <<rec[i][t], 1>> ELSE IF Inv[i] # 0 /\ rec[Inv[i]][t] # 0 THEN <<rec[Inv[i]][t], -1>> ELSE <<0, 0>>
Log(op, i, x, st, g, n) == hist' = Append(hist, [op |-> op, i |-> i, x |-> x, n |-> n, past |-> Cur(st), fix |-> [j \in Idx |-> [t \in Times |-> Answer(Cur(st), j, t)]], glob |-> g])
Push == LET st == Append(stack, None) IN Len(stack) < MaxDepth /\ stack' = st /\ UNCHANGED glob /\ Log("P", 0, <<>>, st, glob, 0)
Pop == LET st == Front(stack) IN stack # <<>> /\ stack' = st /\ UNCHANGED glob /\ Log("Q", 0, <<>>, st, glob, 0)
Record(i, t, v) == LET st == [stack EXCEPT ![Len(stack)][i][t] = v] IN
    stack # <<>> /\ stack' = st /\ UNCHANGED glob /\ Log("R", i, <<<<t, v>>>>, st, glob, 0)
Overlay(old, new) == [t \in Times |-> IF new[t] # 0 THEN new[t] ELSE old[t]]
Count(f) == Cardinality({t \in Times : f[t] # 0})
Store(i, f, append) == LET g == [glob EXCEPT ![i] = IF append THEN Overlay(@, f) ELSE f] IN
    glob' = g /\ UNCHANGED stack /\ Log(IF append THEN "A" ELSE "S", i, [k \in 1..Count(f) |-> LET ts == SetToSortSeq({t \in Times : f[t] # 0}, LAMBDA a, b : a < b) IN <<ts[k], f[ts[k]]>>], stack, g, Count(g[i]))
Batches == [Times -> Vals \cup {0}]
Next == /\ Len(hist) < MaxOps
        /\ \/ Push \/ Pop
           \/ \E i \in Idx, t \in Times, v \in Vals : Record(i, t, v)
           \/ \E i \in Idx, f \in Batches, a \in BOOLEAN : Store(i, f, a)
Spec == Init /\ [][Next]_vars
RNext == /\ Len(hist) < MaxOps
         /\ \E w \in RandomSubset(1, 1..10), i \in RandomSubset(1, Idx), t \in RandomSubset(1, Times), v \in RandomSubset(1, Vals) :
              CASE w = 1 -> Push [] w = 2 /\ stack # <<>> -> Pop
                [] w \in 3..6 /\ stack # <<>> -> Record(i, t, v)
                [] OTHER -> \E f \in RandomSubset(1, Batches) : Store(i, f, w % 2 = 0)
RSpec == Init /\ [][RNext]_vars
(* what is answered was recorded for that index or its inverse at that time; a lookup without a record has no answer *)
Found == \A i \in Idx, t \in Times : LET a == Answer(Cur(stack), i, t) IN
    /\ (a[2] = 1) = (Cur(stack)[i][t] # 0)
    /\ a[2] = -1 => Inv[i] # 0 /\ Inv[Inv[i]] = i
    /\ (a[2] = 0) = (Cur(stack)[i][t] = 0 /\ (Inv[i] = 0 \/ Cur(stack)[IF Inv[i] = 0 THEN i ELSE Inv[i]][t] = 0))
Emitted == Len(hist) = MaxOps => Emit([h |-> hist])
=============================================================================
