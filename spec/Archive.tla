------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* Saving and loading object graphs.                                       *)
(*                                                                         *)
(* A graph is a sequence of nodes, a node referring to earlier ones only;  *)
(* the last node is the one saved.  A node is a leaf with a payload, a     *)
(* curve (a payload and possibly a base curve) or a bag (keyed children,   *)
(* held in the order of their keys).                                       *)
(*                                                                         *)
(* Writing visits the graph depth first: an object met for the first time  *)
(* is written under a fresh tag, any later meeting writes only that tag.   *)
(* Reading builds each definition once and resolves tags to what was built *)
(* before.  Documents may also be written by hand: definitions without a   *)
(* tag are objects of their own, and a document whose references, types or *)
(* mandatory fields are missing is rejected.                               *)
(***************************************************************************)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization

CONSTANTS MaxNodes,     \* nodes in a graph
          MaxKids,      \* entries in a bag
          NKeys,        \* keys 1..NKeys in their order; key 1 is blank
          Payloads,     \* leaf payloads
          CurvePayloads, \* curve payloads
          Wide          \* simulation: the last node is a bag of all the others

VARIABLES g,            \* the nodes so far
          done, mut

Leaf(p) == [k |-> "L", p |-> p, keys |-> <<>>, kids |-> <<>>]
Curve(p, b) == [k |-> "C", p |-> p, keys |-> <<>>, kids |-> b]
\* a bag holds its entries by key; equal keys keep the order of insertion
Sorted(es) == LET byKey[i \in 0..NKeys] == IF i = 0 THEN <<>> ELSE byKey[i-1] \o SelectSeq(es, LAMBDA e : e[1] = i)
              IN byKey[NKeys]
Bag(p, es) == [k |-> "B", p |-> p, keys |-> [i \in 1..Len(es) |-> Sorted(es)[i][1]], kids |-> [i \in 1..Len(es) |-> Sorted(es)[i][2]]]

\* writing: [doc, tags] where tags is the sequence of nodes that have a tag
RECURSIVE WriteNode(_, _, _, _), WriteKids(_, _, _, _)
WriteKids(nodes, kids, i, tags) ==
    IF i > Len(kids) THEN [docs |-> <<>>, tags |-> tags]
    ELSE LET known == \E t \in 1..Len(tags) : tags[t] = kids[i]
             first == IF known THEN [doc |-> [tag |-> CHOOSE t \in 1..Len(tags) : tags[t] = kids[i], def |-> FALSE, node |-> kids[i], kids |-> <<>>], tags |-> tags]
                      ELSE WriteNode(nodes, kids[i], Len(tags) + 1, Append(tags, kids[i]))
             rest == WriteKids(nodes, kids, i + 1, first.tags)
         IN [docs |-> <<first.doc>> \o rest.docs, tags |-> rest.tags]
WriteNode(nodes, n, tag, tags) ==
    LET w == WriteKids(nodes, nodes[n].kids, 1, tags)
    IN [doc |-> [tag |-> tag, def |-> TRUE, node |-> n, kids |-> w.docs], tags |-> w.tags]
Written(nodes) == WriteNode(nodes, Len(nodes), 0, <<>>).doc

\* reading: the objects built, in the order their building ends, or a rejection
\* st = [objs, known (tag -> object), ok]
RECURSIVE ReadDoc(_, _, _), ReadKids(_, _, _, _)
ReadKids(nodes, docs, i, st) ==
    IF i > Len(docs) \/ ~st.ok THEN [st |-> st, ids |-> <<>>]
    ELSE LET one == ReadDoc(nodes, docs[i], st)
             rest == ReadKids(nodes, docs, i + 1, one.st)
         IN [st |-> rest.st, ids |-> <<one.id>> \o rest.ids]
ReadDoc(nodes, d, st) ==
    IF d.tag # 0 /\ \E e \in st.known : e[1] = d.tag THEN [st |-> st, id |-> (CHOOSE e \in st.known : e[1] = d.tag)[2]]
    ELSE IF ~d.def THEN [st |-> [st EXCEPT !.ok = FALSE], id |-> 0]
    ELSE LET k == ReadKids(nodes, d.kids, 1, st)
             o == [k |-> nodes[d.node].k, p |-> nodes[d.node].p, keys |-> nodes[d.node].keys, kids |-> k.ids]
             objs == Append(k.st.objs, o)
         IN IF ~k.st.ok THEN [st |-> k.st, id |-> 0]
            ELSE [st |-> [objs |-> objs, known |-> IF d.tag = 0 THEN k.st.known ELSE k.st.known \union {<<d.tag, Len(objs)>>}, ok |-> TRUE], id |-> Len(objs)]
Read(nodes, d) == ReadDoc(nodes, d, [objs |-> <<>>, known |-> {}, ok |-> TRUE])

\* a graph up to numbering: objects in the order a breadth-first visit meets them
RECURSIVE Visit(_, _, _)
Visit(nodes, order, i) ==
    IF i > Len(order) THEN order
    ELSE Visit(nodes, FoldLeft(LAMBDA acc, k : IF \E t \in 1..Len(acc) : acc[t] = k THEN acc ELSE Append(acc, k), order, nodes[order[i]].kids), i + 1)
Canon(nodes, root) ==
    LET o == Visit(nodes, <<root>>, 1)
        num(n) == CHOOSE t \in 1..Len(o) : o[t] = n
    IN [i \in 1..Len(o) |-> [k |-> nodes[o[i]].k, p |-> nodes[o[i]].p, keys |-> nodes[o[i]].keys,
                             kids |-> [j \in 1..Len(nodes[o[i]].kids) |-> num(nodes[o[i]].kids[j])]]]

\* by-hand documents: strip the tag of a definition, point a reference nowhere, or (same shape) damage a definition's type or a mandatory field
RECURSIVE Untag(_, _), Dangle(_, _), Defs(_), Refs(_)
Untag(d, t) == [d EXCEPT !.tag = IF d.def /\ d.tag = t THEN 0 ELSE d.tag, !.kids = [i \in 1..Len(d.kids) |-> Untag(d.kids[i], t)]]
Dangle(d, t) == [d EXCEPT !.tag = IF ~d.def /\ d.tag = t THEN 99 ELSE d.tag, !.kids = [i \in 1..Len(d.kids) |-> Dangle(d.kids[i], t)]]
Defs(d) == IF d.def THEN {d.tag} \union UNION {Defs(d.kids[i]) : i \in 1..Len(d.kids)} ELSE {}
Refs(d) == IF d.def THEN UNION {Refs(d.kids[i]) : i \in 1..Len(d.kids)} ELSE {d.tag}
Doc == LET w == Written(g) IN
       IF mut[1] = "untag" THEN Untag(w, mut[2]) ELSE IF mut[1] = "dangle" THEN Dangle(w, mut[2]) ELSE w
Rejected == mut[1] \in {"notype", "unknown", "drop"} \/ ~Read(g, Doc).st.ok

Init == g = <<>> /\ done = FALSE /\ mut = <<"none", 0>>
KeySeqs(n) == [1..n -> 1..NKeys]
Grow == /\ ~done /\ Len(g) < MaxNodes
        /\ \/ \E p \in Payloads : g' = Append(g, Leaf(p))
           \/ \E p \in CurvePayloads : \E b \in {<<>>} \union {<<i>> : i \in {j \in 1..Len(g) : g[j].k = "C"}} : g' = Append(g, Curve(p, b))
           \/ \E n \in 0..(IF Len(g) = 0 THEN 0 ELSE MaxKids) : \E ks \in KeySeqs(n), cs \in [1..n -> 1..Len(g)] : g' = Append(g, Bag(n, [i \in 1..n |-> <<ks[i], cs[i]>>]))
        /\ UNCHANGED <<done, mut>>
Finish == /\ ~done /\ g # <<>> /\ done' = TRUE /\ UNCHANGED g
          /\ LET w == Written(g) IN
             \/ mut' = <<"none", 0>>
             \/ \E t \in Defs(w) \ {0} : mut' = <<"untag", t>>
             \/ \E t \in Refs(w) : mut' = <<"dangle", t>>
             \/ \E t \in Defs(w), m \in {"notype", "unknown", "drop"} : mut' = <<m, t>>
Next == Grow \/ Finish
Spec == Init /\ [][Next]_<<g, done, mut>>

\* simulation: one random node per step
RGrow == /\ ~done /\ Len(g) < MaxNodes
         /\ \E c \in RandomSubset(1, 1..5) : \E p \in RandomSubset(1, Payloads), q \in RandomSubset(1, CurvePayloads) :
            \E n \in RandomSubset(1, 0..(IF Len(g) = 0 THEN 0 ELSE MaxKids)) :
            \E ks \in RandomSubset(1, KeySeqs(n)), cs \in RandomSubset(1, [1..n -> 1..Len(g)]) :
            \E b \in RandomSubset(1, {<<>>} \union {<<i>> : i \in {j \in 1..Len(g) : g[j].k = "C"}}) :
              g' = Append(g, IF Wide /\ Len(g) = MaxNodes - 1 THEN Bag(Len(g), TLCEval([i \in 1..Len(g) |-> <<RandomElement(1..NKeys), i>>])) ELSE IF c <= 2 /\ Len(g) < MaxNodes - 1 THEN Leaf(p) ELSE IF c = 3 /\ Len(g) < MaxNodes - 1 THEN Curve(q, b) ELSE Bag(n, [i \in 1..n |-> <<ks[i], cs[i]>>]))
         /\ UNCHANGED <<done, mut>>
RFinish == /\ ~done /\ Len(g) = MaxNodes /\ done' = TRUE /\ UNCHANGED g
           /\ LET w == Written(g) IN
              \E m \in RandomSubset(1, {"none", "untag", "dangle", "notype", "unknown", "drop"}) :
                 LET ts == IF m = "none" THEN {0} ELSE IF m = "untag" THEN Defs(w) \ {0} ELSE IF m = "dangle" THEN Refs(w) ELSE Defs(w)
                 IN IF ts = {} THEN mut' = <<"none", 0>> ELSE \E t \in RandomSubset(1, ts) : mut' = <<m, t>>
RSpec == Init /\ [][RGrow \/ RFinish]_<<g, done, mut>>

\* what is written reads back as the same graph; each object is written once
RoundTrip == done => LET r == Read(g, Written(g)) IN r.st.ok /\ Canon(r.st.objs, r.id) = Canon(g, Len(g))
Once == done => LET w == Written(g) IN Cardinality(Defs(w)) = Len(Canon(g, Len(g))) /\ Refs(w) \subseteq Defs(w)
\* an object met once may lose its tag; a shared one may not
UntagRule == done /\ mut[1] = "untag" => (Rejected <=> mut[2] \in Refs(Written(g)))
Sound == RoundTrip /\ Once /\ UntagRule

Emitted == done => Emit([g |-> g, canon |-> Canon(g, Len(g)), doc |-> Doc, mut |-> mut, rej |-> Rejected])
=============================================================================
