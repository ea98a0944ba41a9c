------------------------------- MODULE HolLib -------------------------------
(* Business days for a set of holiday centers.  A center is [h |-> set of holiday serials,
   w |-> set of working-weekend serials]; cs is a set of centers (possibly empty). *)
EXTENDS CalLib
IsHol(cs, n) == \E c \in cs : n \in c.h
IsWw(cs, n) == \E c \in cs : n \in c.w
IsBus(cs, n) == IsWw(cs, n) \/ (~Weekend(n) /\ ~IsHol(cs, n))
RECURSIVE NextBus(_, _), PrevBus(_, _)
NextBus(cs, n) == IF IsBus(cs, n) THEN n ELSE NextBus(cs, n + 1)
PrevBus(cs, n) == IF IsBus(cs, n) THEN n ELSE PrevBus(cs, n - 1)
CountBus(cs, p, q) == Cardinality({n \in p..(q - 1) : IsBus(cs, n)})
\* a center's data is admissible: holidays on weekdays, working weekends on weekends, both ascending
Ascending(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
ValidCenter(hs, ws) == /\ \A i \in 1..Len(hs) : ~Weekend(hs[i])
                       /\ \A i \in 1..Len(ws) : Weekend(ws[i])
                       /\ Ascending(hs) /\ Ascending(ws)
=============================================================================
