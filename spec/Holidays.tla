------------------------------ MODULE Holidays ------------------------------
(* C05.  The registry of holiday centers and its queries.  reg maps registered center names to
   their data; Add either registers or is rejected leaving reg unchanged; a query names centers in any
   order, repetition and case, and its answer depends on the named centers' data only. *)
EXTENDS HolLib, Emit
CONSTANTS Lo, Hi, MaxLen
VARIABLES reg, hist
vars == <<reg, hist>>

Names == {"AA", "BB", "CC"}
Upper == [AA |-> "AA", Aa |-> "AA", aa |-> "AA", BB |-> "BB", bb |-> "BB", bB |-> "BB", CC |-> "CC", cC |-> "CC", cc |-> "CC"]
Spell == {"AA", "aa", "BB", "bB", "CC", "cC"}
\* Lo is a Monday: weekdays Lo..Lo+4, weekend Lo+5, Lo+6
Data == { <<<<>>, <<>>>>,
          <<<<Lo>>, <<>>>>,
          <<<<Lo + 3, Lo + 4, Lo + 7>>, <<>>>>,
          <<<<Lo + 1, Lo + 8, Lo + 18>>, <<Lo + 5>>>>,
          <<<<Lo + 4, Lo + 7, Lo + 11>>, <<Lo + 6, Lo + 12>>>>,
          <<<<Lo + 2>>, <<Lo + 12, Lo + 13, Lo + 19>>>>,
          <<<<Lo + 14, Lo + 15, Lo + 16, Lo + 17, Lo + 18>>, <<>>>>,
          \* inadmissible
          <<<<Lo + 5>>, <<>>>>,
          <<<<Lo + 1>>, <<Lo + 2>>>>,
          <<<<Lo + 3, Lo + 1>>, <<>>>>,
          <<<<Lo + 1>>, <<Lo + 12, Lo + 5>>>>,
          <<<<Lo, Lo + 6>>, <<>>>> }
Center(d) == [h |-> ToSet(d[1]), w |-> ToSet(d[2])]

Add(nm, d) ==
    /\ LET ok == ValidCenter(d[1], d[2]) /\ Upper[nm] \notin DOMAIN reg
       IN /\ reg' = IF ok THEN (Upper[nm] :> Center(d)) @@ reg ELSE reg
          /\ hist' = Append(hist, [op |-> "add", c |-> nm, h |-> d[1], w |-> d[2], ok |-> ok])

Sel(q) == {reg[Upper[q[i]]] : i \in 1..Len(q)}
Known(q) == \A i \in 1..Len(q) : Upper[q[i]] \in DOMAIN reg
Win == Lo..Hi
Answer(q) ==
    LET cs == Sel(q) IN
    [bus |-> [i \in 1..(Hi - Lo + 1) |-> IsBus(cs, Lo + i - 1)],
     hol |-> [i \in 1..(Hi - Lo + 1) |-> IsHol(cs, Lo + i - 1)],
     ww |-> [i \in 1..(Hi - Lo + 1) |-> IsWw(cs, Lo + i - 1)],
     nx |-> [i \in 1..(Hi - Lo + 1) |-> NextBus(cs, Lo + i - 1)],
     pv |-> [i \in 1..(Hi - Lo + 1) |-> PrevBus(cs, Lo + i - 1)]]
Query(q) ==
    /\ reg' = reg
    /\ hist' = Append(hist, IF Known(q) THEN [op |-> "q", c |-> q, lo |-> Lo, hi |-> Hi, ok |-> TRUE, r |-> Answer(q)]
                            ELSE [op |-> "q", c |-> q, lo |-> Lo, hi |-> Hi, ok |-> FALSE])
\* counting may build and remember the union of the named centers: invisible to every query
Count(q) ==
    /\ reg' = reg
    /\ hist' = Append(hist, IF Known(q) THEN [op |-> "n", c |-> q, lo |-> Lo, hi |-> Hi, ok |-> TRUE,
                                 r |-> [i \in 1..(Hi - Lo + 1) |-> [j \in 1..(Hi - Lo + 1) |-> CountBus(Sel(q), Lo + i - 1, Lo + j - 1)]]]
                            ELSE [op |-> "n", c |-> q, lo |-> Lo, hi |-> Hi, ok |-> FALSE])
Qs == UNION {[1..k -> Spell] : k \in 0..3}

Init == reg = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E nm \in {RandomElement(Spell)}, d \in {RandomElement(Data)} : Add(nm, d)
           \/ \E q \in {RandomElement(Qs)} : Query(q)
           \/ \E q \in {RandomElement(Qs)} : Count(q)
Spec == Init /\ [][Next]_vars

\* properties of the specification itself
Rolls == \A x \in Win : \A q \in Qs : Known(q) =>
            LET cs == Sel(q) nx == NextBus(cs, x) pv == PrevBus(cs, x) IN
               /\ IsBus(cs, nx) /\ nx >= x /\ \A n \in x..(nx - 1) : ~IsBus(cs, n)
               /\ IsBus(cs, pv) /\ pv <= x /\ \A n \in (pv + 1)..x : ~IsBus(cs, n)
Perm == \A q, r \in [1..2 -> Spell] : (Known(q) /\ {Upper[q[i]] : i \in 1..2} = {Upper[r[i]] : i \in 1..2}) => Sel(q) = Sel(r)
Done == Len(hist) = MaxLen => Emit([op |-> "hol", steps |-> hist])
=============================================================================
