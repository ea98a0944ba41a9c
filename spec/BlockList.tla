------------------------------ MODULE BlockList ------------------------------
(* C20.  The storage behind recordings: a growing sequence of slots, in blocks of B.  `cur` is the next free
   slot, slots below it are live.  A reservation of n slots is contiguous inside one block: if the current
   block has fewer than n free slots the rest of it is left as a gap.  A mark and a saved position are slot
   numbers; rewinding moves `cur` back and the slots are used again.  `val` is what live slots hold. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt
CONSTANTS Sizes, MaxOps, Weights
VARIABLES B, cur, mark, saved, val, gaps, epoch, hist
vars == <<B, cur, mark, saved, val, gaps, epoch, hist>>
None == -1
Init == /\ B \in Sizes /\ cur = 0 /\ mark = 0 /\ saved = None /\ val = <<>> /\ gaps = {} /\ epoch = 0 /\ hist = <<>>
\* slot s is val[s + 1]
Live(c, v, g) == SelectSeq([i \in 1..c |-> <<i - 1, v[i]>>], LAMBDA p : p[1] \notin g)
Note(op, n, slot, c, v, g) == hist' = Append(hist, [op |-> op, n |-> n, slot |-> slot, live |-> Live(c, v, g), nogap |-> g = {}, mark |-> mark', end |-> c])
Free == B - (cur % B)
Put(s, w) == [i \in 1..Max({Len(val), s + Len(w)}) |-> IF i > s /\ i <= s + Len(w) THEN w[i - s] ELSE IF i <= Len(val) THEN val[i] ELSE 0]
Fresh == 100 * (Len(hist) + 1)
Reserve(op, n) ==
    LET s == IF Free < n THEN cur + Free ELSE cur
        w == [i \in 1..n |-> Fresh + i]
        v == Put(s, w)
        g == gaps \cup (cur..(s - 1))
    IN /\ cur' = s + n /\ val' = v /\ gaps' = g /\ UNCHANGED <<B, mark, saved, epoch>>
       /\ Note(op, n, s, s + n, v, g)
BackTo(op, s) ==
    LET g == {x \in gaps : x < s} IN
    /\ cur' = s /\ gaps' = g /\ saved' = (IF saved # None /\ saved > s THEN None ELSE saved)
    /\ UNCHANGED <<B, mark, val, epoch>> /\ Note(op, 0, None, s, val, g)
SetMark == mark' = cur /\ UNCHANGED <<B, cur, saved, val, gaps, epoch>> /\ Note("K", 0, None, cur, val, gaps)
Save == saved' = cur /\ UNCHANGED <<B, cur, mark, val, gaps, epoch>> /\ Note("G", 0, None, cur, val, gaps)
Clear == /\ cur' = 0 /\ mark' = 0 /\ saved' = None /\ val' = <<>> /\ gaps' = {} /\ epoch' = epoch + 1 /\ UNCHANGED B
         /\ Note("C", 0, None, 0, <<>>, {})
Zero == /\ val' = [i \in 1..Len(val) |-> 0] /\ UNCHANGED <<B, cur, mark, saved, gaps, epoch>> /\ Note("Z", 0, None, cur, val', gaps)
ToMark == mark <= cur /\ BackTo("R", mark)
ToSaved == saved # None /\ saved <= cur /\ BackTo("T", saved)
Step(w) == CASE w = "E" -> Reserve("E", 1) [] w = "P" -> Reserve("P", 1) [] w = "1" -> Reserve("M", 1)
             [] w = "2" -> B >= 2 /\ Reserve("M", 2) [] w = "3" -> B >= 3 /\ Reserve("M", 3) [] w = "4" -> B >= 4 /\ Reserve("M", 4)
             [] w = "K" -> SetMark [] w = "R" -> ToMark [] w = "W" -> BackTo("W", 0) [] w = "G" -> Save [] w = "T" -> ToSaved
             [] w = "C" -> Clear [] OTHER -> Zero
Next == Len(hist) < MaxOps /\ \E i \in 1..Len(Weights) : Step(Weights[i])
Spec == Init /\ [][Next]_vars
(* every reservation lies in one block, is new storage for a live entry, and nothing live before is lost *)
Sound == Len(hist) > 0 =>
    LET h == hist[Len(hist)] before == IF Len(hist) = 1 THEN <<>> ELSE hist[Len(hist) - 1].live IN
    /\ h.op \in {"E", "P", "M"} =>
        /\ h.slot \div B = (h.slot + h.n - 1) \div B
        /\ IsPrefix(before, h.live) /\ Len(h.live) = Len(before) + h.n
    /\ h.op \in {"R", "T", "W", "K", "G"} => IsPrefix(h.live, before)
    /\ h.op \in {"K", "G"} => h.live = before
    /\ h.op \in {"W", "C"} => h.live = <<>>
    /\ h.op = "R" => h.live = SelectSeq(before, LAMBDA p : p[1] < mark)
    /\ h.op = "Z" => \A i \in 1..Len(h.live) : h.live[i][2] = 0
Worth == \E j \in 1..Len(hist) : hist[j].op \in {"E", "P", "M"}
Emitted == (Len(hist) = MaxOps /\ Worth) => Emit([b |-> B, h |-> hist])
=============================================================================
