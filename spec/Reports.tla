------------------------------- MODULE Reports ------------------------------
(* C26.  A report: values by named axes.  The first axis grows with writes, the others are fixed; an address outside
   is rejected and changes nothing.  Each axis has a table of header rows. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Shapes,     \* {<<<<size, labels>>, ...>>}
          MaxOps, Beyond
VARIABLES sh, n0, v, hd, hist
vars == <<sh, n0, v, hd, hist>>
RECURSIVE Coords(_)
Coords(sz) == IF sz = <<>> THEN {<<>>} ELSE {<<i>> \o t : i \in 0..(Head(sz) - 1), t \in Coords(Tail(sz))}
RECURSIVE Lex(_)
Lex(sz) == IF sz = <<>> THEN <<<<>>>> ELSE LET t == Lex(Tail(sz)) IN FoldLeft(LAMBDA acc, i : acc \o [k \in 1..Len(t) |-> <<i - 1>> \o t[k]], <<>>, [i \in 1..Head(sz) |-> i])
Sizes(n) == [k \in 1..Len(sh) |-> IF k = 1 THEN n ELSE sh[k][1]]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Stride == Prod([k \in 1..(Len(sh) - 1) |-> sh[k + 1][1]])
Flat(n, w) == LET l == Lex(Sizes(n)) IN [k \in 1..Len(l) |-> w[l[k]]]
Blank(k) == [j \in 1..sh[k][2] |-> 0]
Init == /\ sh \in Shapes /\ n0 = sh[1][1] /\ v = [c \in Coords([k \in 1..Len(sh) |-> sh[k][1]]) |-> 0]
        /\ hd = [k \in 1..Len(sh) |-> [r \in 1..sh[k][1] |-> [j \in 1..sh[k][2] |-> 0]]] /\ hist = <<>>
Log(op, x, ok, r, n, w, h) == hist' = Append(hist, [op |-> op, x |-> x, ok |-> ok, r |-> r, sz |-> Sizes(n), v |-> Flat(n, w), hd |-> h])
Val == 10 + Len(hist)
InOther(c) == \A k \in 2..Len(c) : c[k] >= 0 /\ c[k] < sh[k][1]
Write(c) == IF c[1] >= 0 /\ InOther(c)
            THEN LET n == IF c[1] < n0 THEN n0 ELSE c[1] + 1
                     w == TLCEval([d \in Coords(Sizes(n)) |-> IF d = c THEN Val ELSE IF d \in DOMAIN v THEN v[d] ELSE 0])
                 IN n0' = n /\ v' = w /\ UNCHANGED <<sh, hd>> /\ Log("W", c, TRUE, 0, n, w, hd)
            ELSE UNCHANGED <<sh, n0, v, hd>> /\ Log("W", c, FALSE, 0, n0, v, hd)
Read(c) == UNCHANGED <<sh, n0, v, hd>> /\ LET ok == c \in DOMAIN v IN Log("R", c, ok, IF ok THEN v[c] ELSE 0, n0, v, hd)
SetAll(k) == IF k % Stride = 0 /\ k >= n0 * Stride
             THEN LET n == k \div Stride l == Lex(Sizes(n)) w == TLCEval([d \in Coords(Sizes(n)) |-> Val + (CHOOSE j \in 1..Len(l) : l[j] = d)]) IN
                  n0' = n /\ v' = w /\ UNCHANGED <<sh, hd>> /\ Log("S", <<k>>, TRUE, 0, n, w, hd)
             ELSE UNCHANGED <<sh, n0, v, hd>> /\ Log("S", <<k>>, FALSE, 0, n0, v, hd)
Header(k, off, n) == IF n = sh[k][2] /\ off >= 0
             THEN LET old == hd[k] m == IF off < Len(old) THEN Len(old) ELSE off + 1
                      h == [hd EXCEPT ![k] = [r \in 1..m |-> IF r = off + 1 THEN [j \in 1..n |-> Val + j] ELSE IF r <= Len(old) THEN old[r] ELSE Blank(k)]] IN
                  hd' = h /\ UNCHANGED <<sh, n0, v>> /\ Log("H", <<k, off, n>>, TRUE, 0, n0, v, h)
             ELSE UNCHANGED <<sh, n0, v, hd>> /\ Log("H", <<k, off, n>>, FALSE, 0, n0, v, hd)
\* addresses from one below to Beyond above the range
RECURSIVE Near(_)
Near(sz) == IF sz = <<>> THEN {<<>>} ELSE {<<i>> \o t : i \in -1..(Head(sz) + Beyond), t \in Near(Tail(sz))}
Next == /\ Len(hist) < MaxOps
        /\ \/ \E c \in Near(Sizes(n0)) : Write(c) \/ Read(c)
           \/ \E k \in 0..(n0 + 2) * Stride : SetAll(k)
           \/ \E k \in 1..Len(sh), off \in -1..3, n \in 0..3 : Header(k, off, n)
Spec == Init /\ [][Next]_vars
RNext == /\ Len(hist) < MaxOps
         /\ \E w \in RandomSubset(1, 1..10) :
            CASE w \in 1..4 -> \E c \in RandomSubset(1, Near(Sizes(n0))) : Write(c)
              [] w \in 5..6 -> \E c \in RandomSubset(1, Near(Sizes(n0))) : Read(c)
              [] w = 7 -> \E k \in RandomSubset(1, 0..(n0 + 2) * Stride) : SetAll(k)
              [] w = 8 -> SetAll((n0 + 1) * Stride)
              [] OTHER -> \E k \in RandomSubset(1, 1..Len(sh)), off \in RandomSubset(1, -1..4) : \E n \in {sh[k][2], (sh[k][2] + off + 1) % 4} : Header(k, off, n)
RSpec == Init /\ [][RNext]_vars
Total == DOMAIN v = Coords(Sizes(n0))
Never == [][n0' >= n0 /\ (\A c \in DOMAIN v : v'[c] = v[c] \/ hist'[Len(hist')].op = "S" \/ hist'[Len(hist')].x = c)]_vars
Emitted == Len(hist) = MaxOps => Emit([sh |-> sh, h |-> hist])
=============================================================================
