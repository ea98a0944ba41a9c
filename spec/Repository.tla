----------------------------- MODULE Repository -----------------------------
(* C21.  The object repository as a set of objects.  An object has a type and a name; names are compared without
   regard to case (`key`).  Adding under a policy first erases what the policy names.  Patterns are given by what
   they select; the harness renders them as regular expressions over tags. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt
CONSTANTS Objs,        \* <<[type |-> .., name |-> .., key |-> ..], ...>>
          MaxOps, Policies
VARIABLES store, seen, hist
vars == <<store, seen, hist>>
Ids == 1..Len(Objs)
Init == store = {} /\ seen = {} /\ hist = <<>>
SameName(a, b) == Objs[a].type = Objs[b].type /\ Objs[a].key = Objs[b].key
SameType(a, b) == Objs[a].type = Objs[b].type
Erased(o, p) == CASE p = "NONE" -> {}
                  [] p = "NAME_NONEMPTY" -> IF Objs[o].name = "" THEN {} ELSE {x \in store : SameName(x, o)}
                  [] p = "NAME" -> {x \in store : SameName(x, o)}
                  [] OTHER -> {x \in store : SameType(x, o)}
Matches(p, x) == CASE p[1] = "all" -> TRUE [] p[1] = "type" -> Objs[x].type = p[2] [] p[1] = "name" -> Objs[x].name = p[2]
                   [] p[1] = "obj" -> x = p[3] [] OTHER -> FALSE
Sel(p) == {x \in store : Matches(p, x)}
Patterns == {<<"all", "", 0>>, <<"none", "", 0>>} \cup {<<"type", Objs[i].type, 0>> : i \in Ids} \cup {<<"name", Objs[i].name, 0>> : i \in Ids} \cup {<<"obj", "", i>> : i \in seen}
Log(op, o, p, r, s) == hist' = Append(hist, [op |-> op, o |-> o, p |-> p, r |-> r, store |-> SetToSortSeq(s, LAMBDA a, b : a < b)])
Add(o, p) == LET s == (store \ Erased(o, p)) \cup {o} IN store' = s /\ seen' = seen \cup {o} /\ Log("A", o, <<p>>, 0, s)
Fetch(o) == o \in seen /\ UNCHANGED <<store, seen>> /\ Log("F", o, <<>>, IF o \in store THEN 1 ELSE 0, store)
Find(p) == UNCHANGED <<store, seen>> /\ Log("S", 0, p, SetToSortSeq(Sel(p), LAMBDA a, b : a < b), store)
EraseBy(p) == LET s == store \ Sel(p) IN store' = s /\ UNCHANGED seen /\ Log("E", 0, p, Cardinality(Sel(p)), s)
EraseObj(o) == LET s == store \ {o} IN store' = s /\ UNCHANGED seen /\ Log("X", o, <<>>, IF o \in store THEN 1 ELSE 0, s)
EraseTwo(a, b) == LET s == store \ {a, b} IN store' = s /\ UNCHANGED seen /\ Log("Y", a, <<b>>, Cardinality(store \cap {a, b}), s)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E o \in Ids, p \in Policies : Add(o, p)
           \/ \E o \in Ids : Fetch(o) \/ EraseObj(o)
           \/ \E p \in Patterns : Find(p) \/ EraseBy(p)
           \/ \E a, b \in Ids : a < b /\ EraseTwo(a, b)
Spec == Init /\ [][Next]_vars
(* an add keeps everything its policy does not name; nothing is found that is not stored *)
Sound == Len(hist) > 0 =>
    LET h == hist[Len(hist)] before == IF Len(hist) = 1 THEN {} ELSE Range(hist[Len(hist) - 1].store) IN
    /\ h.op = "A" => /\ h.o \in store
                     /\ h.p[1] = "NONE" => before \subseteq store
                     /\ \A x \in before \ store : SameType(x, h.o) /\ (h.p[1] # "TYPE" => SameName(x, h.o))
                     /\ h.p[1] \in {"NAME", "TYPE"} => \A x \in store : SameName(x, h.o) => x = h.o
    /\ h.op \in {"E", "X", "Y"} => store \subseteq before /\ Cardinality(before) - Cardinality(store) = h.r
Emitted == (Len(hist) = MaxOps /\ hist[1].op = "A") => Emit([h |-> hist])
(* simulation: more adds *)
RNext == /\ Len(hist) < MaxOps
         /\ \/ \E o \in Ids, p \in Policies : Add(o, p)
            \/ \E o \in Ids : Fetch(o)
            \/ \E o \in Ids : EraseObj(o)
            \/ \E p \in Patterns : Find(p)
            \/ Len(hist) % 6 = 5 /\ \E p \in Patterns : EraseBy(p)
            \/ Len(hist) % 5 = 4 /\ \E a, b \in Ids : a < b /\ EraseTwo(a, b)
RSpec == Init /\ [][RNext]_vars
=============================================================================
