------------------------------ MODULE AadShape ------------------------------
(* C19.  The shapes of recorded programs over real numbers: which statements read and write which variables.
   The partial derivatives of the elementary functions are supplied by the oracle that evaluates the chain rule
   of Aad.tla forwards on them. *)
EXTENDS Emit, Integers, SequencesExt, Randomization
CONSTANTS NV, Steps
VARIABLES stms
Forms == {"add", "sub", "mul", "div", "max", "min", "neg", "pos", "abs", "addk", "kadd", "subk", "ksub", "mulk", "kmul", "divk", "kdiv", "maxk", "mink", "sq",
          "exp", "log", "sqrt", "npdf", "ncdf", "erfc", "pow", "powk", "kpow", "fma", "dist", "mix1", "mix2", "mix3",
          "ladd", "lsub", "lmul", "ldiv", "ladk", "lsbk", "lmlk", "ldvk", "self", "set", "copy"}
Init == stms = <<>>
Next == /\ Len(stms) < Steps
        /\ \E f \in RandomSubset(2, Forms) : \E w \in RandomSubset(1, [1..4 -> 1..NV]) : \E k \in RandomSubset(1, 1..12) : stms' = Append(stms, <<f, w[1], w[2], w[3], w[4], k>>)
Spec == Init /\ [][Next]_stms
Emitted == Len(stms) = Steps => Emit([stms |-> stms])
=============================================================================
