-------------------------------- MODULE Aad ---------------------------------
(* C19.  Recording and back-propagation.  Inputs are leaves; a statement records one node whose partial
   derivatives with respect to the nodes it reads are known at recording time; copying a variable records
   nothing.  Each node carries its gradient with respect to the inputs (forward mode, the oracle); adjoints
   come from the reverse recursion.  Statements are drawn over small integers so that all arithmetic is exact.
   A marked recording consists of a common part and of rounds, each recorded again from the mark. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS NI, NV, Pre, Rounds, PerRound, Vals
VARIABLES nodes, env, stms, phase, pnodes, penv, rounds, tot
vars == <<nodes, env, stms, phase, pnodes, penv, rounds, tot>>
\* a node: value, the nodes it reads with the partial derivatives, gradient in the inputs
Zero == [i \in 1..NI |-> 0]
Leaf(v, g) == [v |-> v, args |-> <<>>, g |-> g]
Start(v) == [i \in 1..NI |-> Leaf(v[i], [j \in 1..NI |-> IF i = j THEN 1 ELSE 0])]
Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Op(f, a, b, cc, k, t) ==        \* <<ok, value, partials>> ; partials follow the order of the operands read
    CASE f = "add"  -> <<TRUE, a + b, <<<<"a", 1>>, <<"b", 1>>>>>>
      [] f = "sub"  -> <<TRUE, a - b, <<<<"a", 1>>, <<"b", -1>>>>>>
      [] f = "mul"  -> <<TRUE, a * b, <<<<"a", b>>, <<"b", a>>>>>>
      [] f = "max"  -> <<a # b, Mx(a, b), <<<<"a", IF a > b THEN 1 ELSE 0>>, <<"b", IF b > a THEN 1 ELSE 0>>>>>>
      [] f = "min"  -> <<a # b, Mn(a, b), <<<<"a", IF a < b THEN 1 ELSE 0>>, <<"b", IF b < a THEN 1 ELSE 0>>>>>>
      [] f = "neg"  -> <<TRUE, -a, <<<<"a", -1>>>>>>
      [] f = "pos"  -> <<TRUE, a, <<<<"a", 1>>>>>>
      [] f = "abs"  -> <<a # 0, Abs(a), <<<<"a", IF a > 0 THEN 1 ELSE -1>>>>>>
      [] f = "addk" -> <<TRUE, a + k, <<<<"a", 1>>>>>>
      [] f = "kadd" -> <<TRUE, k + a, <<<<"a", 1>>>>>>
      [] f = "subk" -> <<TRUE, a - k, <<<<"a", 1>>>>>>
      [] f = "ksub" -> <<TRUE, k - a, <<<<"a", -1>>>>>>
      [] f = "mulk" -> <<TRUE, a * k, <<<<"a", k>>>>>>
      [] f = "kmul" -> <<TRUE, k * a, <<<<"a", k>>>>>>
      [] f = "maxk" -> <<a # k, Mx(a, k), <<<<"a", IF a > k THEN 1 ELSE 0>>>>>>
      [] f = "kmax" -> <<a # k, Mx(a, k), <<<<"a", IF a > k THEN 1 ELSE 0>>>>>>
      [] f = "mink" -> <<a # k, Mn(a, k), <<<<"a", IF a < k THEN 1 ELSE 0>>>>>>
      [] f = "kmin" -> <<a # k, Mn(a, k), <<<<"a", IF a < k THEN 1 ELSE 0>>>>>>
      [] f = "sq"   -> <<TRUE, a * a, <<<<"a", a>>, <<"a", a>>>>>>
      [] f = "pow2" -> <<TRUE, a * a, <<<<"a", 2 * a>>>>>>
      [] f = "pow3" -> <<TRUE, a * a * a, <<<<"a", 3 * a * a>>>>>>
      [] f = "fma"  -> <<TRUE, a * b + cc, <<<<"a", b>>, <<"b", a>>, <<"c", 1>>>>>>
      [] f = "dist" -> <<TRUE, (a + b) * (a - cc), <<<<"a", a - cc>>, <<"b", a - cc>>, <<"a", a + b>>, <<"c", -(a + b)>>>>>>
      [] f = "tree" -> <<a * b # cc, Mx(a * b, cc) - 3 * (a - k), <<<<"a", IF a * b > cc THEN b ELSE 0>>, <<"b", IF a * b > cc THEN a ELSE 0>>, <<"c", IF cc > a * b THEN 1 ELSE 0>>, <<"a", -3>>>>>>
      [] f = "ladd" -> <<TRUE, t + a * b, <<<<"t", 1>>, <<"a", b>>, <<"b", a>>>>>>
      [] f = "lsub" -> <<TRUE, t - a, <<<<"t", 1>>, <<"a", -1>>>>>>
      [] f = "lmul" -> <<TRUE, t * a, <<<<"t", a>>, <<"a", t>>>>>>
      [] f = "ladk" -> <<TRUE, t + k, <<<<"t", 1>>>>>>
      [] f = "lsbk" -> <<TRUE, t - k, <<<<"t", 1>>>>>>
      [] f = "lmlk" -> <<TRUE, t * k, <<<<"t", k>>>>>>
      [] f = "self" -> <<TRUE, t * t - a, <<<<"t", t>>, <<"t", t>>, <<"a", -1>>>>>>
      [] OTHER      -> <<TRUE, k, <<>>>>          \* "set": a new constant
Forms == {"add", "sub", "mul", "max", "min", "neg", "pos", "abs", "addk", "kadd", "subk", "ksub", "mulk", "kmul", "maxk", "kmax", "mink", "kmin",
          "sq", "pow2", "pow3", "fma", "dist", "tree", "ladd", "lsub", "lmul", "ladk", "lsbk", "lmlk", "self", "set", "copy"}
Small(g) == \A i \in 1..NI : Abs(g[i]) <= 20000
Init ==
    /\ \E v \in RandomSubset(6, [1..NI -> Vals]) : nodes = Start(v)
    /\ env = [i \in 1..NV |-> IF i <= NI THEN i ELSE 1] /\ stms = <<>> /\ phase = 0 /\ pnodes = <<>> /\ penv = <<>> /\ rounds = <<>> /\ tot = <<>>
Record(f, t, a, b, cc, k) ==
    IF f = "copy" THEN
        /\ env' = [env EXCEPT ![t] = env[a]] /\ UNCHANGED <<nodes, phase, pnodes, penv, rounds, tot>>
        /\ stms' = Append(stms, <<f, t, a, b, cc, k, nodes[env[a]].v>>)
    ELSE
    LET w == [x \in {"a", "b", "c", "t"} |-> CASE x = "a" -> env[a] [] x = "b" -> env[b] [] x = "c" -> env[cc] [] OTHER -> env[t]]
        v == [x \in {"a", "b", "c", "t"} |-> nodes[w[x]].v]
        o == Op(f, v["a"], v["b"], v["c"], k, v["t"])
        args == [i \in 1..Len(o[3]) |-> <<w[o[3][i][1]], o[3][i][2]>>]
        g == [j \in 1..NI |-> FoldLeft(LAMBDA acc, p : acc + nodes[p[1]].g[j] * p[2], 0, args)]
    IN  /\ o[1] /\ Abs(o[2]) <= 200 /\ Small(g)
        /\ nodes' = Append(nodes, [v |-> o[2], args |-> args, g |-> g])
        /\ env' = [env EXCEPT ![t] = Len(nodes) + 1]
        /\ stms' = Append(stms, <<f, t, a, b, cc, k, o[2]>>)
        /\ UNCHANGED <<phase, pnodes, penv, rounds, tot>>
Stm == \E f \in RandomSubset(3, Forms) : \E w \in RandomSubset(1, [1..4 -> 1..NV]) : \E k \in RandomSubset(1, Vals) : Record(f, w[1], w[2], w[3], w[4], k)
(* reverse recursion from node r with weight 1, down to node lo: adjoints of all nodes, nodes >= lo pass theirs on *)
Sweep(ns, start, r, lo) ==
    LET Push(adj, i) == IF ns[i].args = <<>> THEN adj
            ELSE FoldLeft(LAMBDA ad, p : [ad EXCEPT ![p[1]] = @ + adj[i] * p[2]], adj, ns[i].args)
        Down(adj, i) == Push(adj, r + 1 - i)
    IN IF r < lo THEN start ELSE FoldLeft(LAMBDA adj, i : Down(adj, i), start, [i \in 1..(r - lo + 1) |-> i])
Unit(n, r) == [i \in 1..n |-> IF i = r THEN 1 ELSE 0]
RevAdj(ns, r) == TLCEval(Sweep(ns, Unit(Len(ns), r), r, 1))
\* sums over rounds
Add(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
SetMark == /\ phase = 0 /\ Len(stms) = Pre
           /\ phase' = 1 /\ pnodes' = nodes /\ penv' = env /\ tot' = [i \in 1..Len(nodes) |-> 0]
           /\ rounds' = <<[stms |-> stms, res |-> 0]>> /\ stms' = <<>> /\ UNCHANGED <<nodes, env>>
(* the end of a round: back-propagate its result to the mark, add to the adjoints of the common part, rewind *)
EndRound(res) ==
    /\ phase = 1 /\ Len(stms) = PerRound /\ Len(rounds) <= Rounds
    /\ LET m == Len(pnodes) r == env[res]
           ad == Sweep(nodes, Unit(Len(nodes), r), r, m + 1)
       IN tot' = Add(tot, SubSeq(ad, 1, m))
    /\ rounds' = Append(rounds, [stms |-> stms, res |-> res, g |-> nodes[env[res]].g]) /\ stms' = <<>> /\ nodes' = pnodes /\ env' = penv
    /\ UNCHANGED <<phase, pnodes, penv>>
\* the second stage: from the mark to the start
Done == phase = 1 /\ Len(rounds) = Rounds + 1
Final == Sweep(pnodes, tot, Len(pnodes), 1)
Next == \/ phase = 0 /\ Len(stms) < Pre /\ Stm
        \/ SetMark
        \/ ~Done /\ phase = 1 /\ Len(stms) < PerRound /\ Stm
        \/ ~Done /\ \E res \in RandomSubset(1, 1..NV) : EndRound(res)
Spec == Init /\ [][Next]_vars
(* reverse mode gives the forward gradients; the two stages give the sum of the rounds' gradients *)
ReverseIsForward == (stms # <<>>) => \A v \in 1..NV : LET ad == RevAdj(nodes, env[v]) IN \A i \in 1..NI : ad[i] = nodes[env[v]].g[i]
Stages == Done => \A i \in 1..NI : Final[i] = FoldLeft(LAMBDA acc, j : acc + rounds[j].g[i], 0, [j \in 1..Rounds |-> j + 1])
Emitted ==
    /\ (phase = 0 /\ Len(stms) = Pre) =>
          Emit([kind |-> "one", x |-> [i \in 1..NI |-> nodes[i].v], nv |-> NV, stms |-> stms, env |-> env,
                adj |-> [v \in 1..NV |-> RevAdj(nodes, env[v])]])
    /\ Done => Emit([kind |-> "marked", x |-> [i \in 1..NI |-> pnodes[i].v], nv |-> NV, rounds |-> rounds, adj |-> Final])
=============================================================================
