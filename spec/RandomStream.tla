---------------------------- MODULE RandomStream ----------------------------
(* C17, C18.  Generators as positions in streams.  A generator is fresh at some position until a vector is
   drawn; drawing uniforms (normals) walks the stream of uniform (normal) vectors, SkipTo moves to any
   position, a clone starts at position 0.  A vector drawn the other way without a skip in between has no
   specified identity ("X"). *)
EXTENDS Emit, Integers, SequencesExt
CONSTANTS Skips, MaxOps, MaxObjs
VARIABLES gens, hist
vars == <<gens, hist>>
Fresh(n) == [k |-> "F", n |-> n]
Init == gens = <<Fresh(0)>> /\ hist = <<>>
More == Len(hist) < MaxOps
Draw(i, w) == LET g == gens[i] IN
    /\ hist' = Append(hist, <<w, i, IF g.k \in {"F", w} THEN g.n ELSE -1>>)
    /\ gens' = [gens EXCEPT ![i] = IF g.k \in {"F", w} THEN [k |-> w, n |-> g.n + 1] ELSE [k |-> "X", n |-> 0]]
SkipTo(i, n) == hist' = Append(hist, <<"S", i, n>>) /\ gens' = [gens EXCEPT ![i] = Fresh(n)]
Clone(i) == Len(gens) < MaxObjs /\ hist' = Append(hist, <<"C", i, 0>>) /\ gens' = Append(gens, Fresh(0))
Next == More /\ \E i \in 1..Len(gens) : Draw(i, "U") \/ Draw(i, "N") \/ Clone(i) \/ \E n \in Skips : SkipTo(i, n)
Spec == Init /\ [][Next]_vars
TypeOk == \A i \in 1..Len(gens) : gens[i].k \in {"F", "U", "N", "X"} /\ gens[i].n >= 0
Observed == \E j \in 1..Len(hist) : hist[j][1] \in {"U", "N"} /\ hist[j][3] # -1
Emitted == (Len(hist) = MaxOps /\ Observed /\ hist[MaxOps][1] \in {"U", "N"} /\ hist[MaxOps][3] # -1) => Emit([h |-> hist])
\* longer histories by simulation
RNext == More /\ \E i \in 1..Len(gens) : Draw(i, "U") \/ Draw(i, "N") \/ Draw(i, "U") \/ Draw(i, "N") \/ Clone(i) \/ \E n \in Skips : SkipTo(i, n)
RSpec == Init /\ [][RNext]_vars
=============================================================================
