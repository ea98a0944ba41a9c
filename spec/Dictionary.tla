----------------------------- MODULE Dictionary -----------------------------
(* C24.  A dictionary as a partial function from condensed keys to values.  A key is a sequence of characters;
   condensing drops fluff (blanks, tabs, underscores) and folds case.  Inserting a key whose condensed form is
   present is refused and changes nothing.  The text form lists the entries by key; parsing text splits it at
   separators, and every non-empty piece must be one non-empty key, one equals sign and a value that may be blank. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Chars,       \* <<[c |-> character, up |-> its condensed form ("" for fluff)], ...>>
          MaxLen,      \* key length
          Vals,        \* value identifiers
          MaxOps,
          Toks,        \* <<[t |-> "key"/"val"/"=" / ";", up |-> condensed text], ...>>
          MaxToks
VARIABLES d, hist, toks
vars == <<d, hist, toks>>
Keys == UNION {[1..n -> 1..Len(Chars)] : n \in 1..MaxLen}
Condense(k) == FoldLeft(LAMBDA a, i : IF Chars[i].up = "" THEN a ELSE Append(a, Chars[i].up), <<>>, k)
Init == d = <<>> /\ hist = <<>> /\ toks = <<>>         \* d: sequence of <<condensed key, value>>
Has(k) == \E i \in 1..Len(d) : d[i][1] = k
Get(k) == d[CHOOSE i \in 1..Len(d) : d[i][1] = k][2]
Do(op, k, v) ==
  LET ck == Condense(k) IN
  /\ ck # <<>>
  /\ hist' = Append(hist, [op |-> op, k |-> k, v |-> v, ok |-> IF op = "I" THEN ~Has(ck) ELSE Has(ck), r |-> IF op = "L" /\ Has(ck) THEN Get(ck) ELSE 0,
                           n |-> IF op = "I" /\ ~Has(ck) THEN Len(d) + 1 ELSE Len(d)])
  /\ d' = IF op = "I" /\ ~Has(ck) THEN Append(d, <<ck, v>>) ELSE d
  /\ UNCHANGED toks
Next == Len(hist) < MaxOps /\ \E k \in Keys : \E op \in {"I", "L"} : Do(op, k, 1 + (Len(hist) % Cardinality(Vals)))
Spec == Init /\ [][Next]_vars
RNext == Len(hist) < MaxOps /\ \E k \in RandomSubset(1, Keys), v \in RandomSubset(1, Vals), o \in RandomSubset(1, 1..3) : Do(IF o = 3 THEN "L" ELSE "I", k, v)
RSpec == Init /\ [][RNext]_vars
\* each key once
Sound == \A i, j \in 1..Len(d) : i # j => d[i][1] # d[j][1]
Emitted == Len(hist) = MaxOps => Emit([h |-> hist, d |-> d])

(* parsing *)
TNext == Len(toks) < MaxToks /\ \E t \in 1..Len(Toks) : toks' = Append(toks, t) /\ UNCHANGED <<d, hist>>
TSpec == Init /\ [][TNext]_vars
\* pieces between separators
Pieces == FoldLeft(LAMBDA a, i : IF Toks[i].t = ";" THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, i)], <<<<>>>>, toks)
Live == SelectSeq(Pieces, LAMBDA p : p # <<>>)
Eqs(p) == Cardinality({i \in 1..Len(p) : Toks[p[i]].t = "="})
EqAt(p) == CHOOSE i \in 1..Len(p) : Toks[p[i]].t = "="
KeyOf(p) == SubSeq(p, 1, EqAt(p) - 1)
Cond(p) == FoldLeft(LAMBDA a, i : a \o Toks[i].up, "", KeyOf(p))
Good(p) == Eqs(p) = 1 /\ EqAt(p) > 1
Accepts == /\ \A i \in 1..Len(Live) : Good(Live[i])
           /\ \A i, j \in 1..Len(Live) : i # j => Cond(Live[i]) # Cond(Live[j])
Parsed == [i \in 1..Len(Live) |-> [k |-> Cond(Live[i]), v |-> SubSeq(Live[i], EqAt(Live[i]) + 1, Len(Live[i]))]]
TEmitted == Len(toks) > 0 => Emit([t |-> toks, ok |-> Accepts, p |-> IF Accepts THEN Parsed ELSE <<>>])
=============================================================================
