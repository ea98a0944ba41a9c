----------------------------- MODULE IndexNames -----------------------------
(* C35.  Names of market indices.  An index is an equity, with a delivery on a date, after a delay or unspecified, or an exchange rate of two currencies; its name is a
   sequence of tokens.  Reading is defined on any sequence of tokens: the one index with that name, or none.  Names are then damaged by edits. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Texts, Ccys, Dates, Delays, Junk, MaxEdits, R
VARIABLES name, edits
vars == <<name, edits>>
Marks == {"[", "]", "/", "@", ">", ":"}
Tokens == Marks \cup {"EQ", "FX"} \cup Texts \cup Ccys \cup Dates \cup Delays \cup Junk
None == [k |-> "none"]
Free == [k |-> "free"]                 \* outside what is promised
Indices == [k : {"eq"}, n : {<<t>> : t \in Texts}, m : {""}, x : {""}] \cup [k : {"eq"}, n : {<<t>> : t \in Texts}, m : {"@"}, x : Dates] \cup [k : {"eq"}, n : {<<t>> : t \in Texts}, m : {">"}, x : Delays]
           \cup [k : {"fx"}, f : Ccys, d : Ccys]
NameOf(i) == IF i.k = "fx" THEN <<"FX", "[", i.f, "/", i.d, "]">> ELSE <<"EQ", "[">> \o i.n \o <<"]">> \o (IF i.m = "" THEN <<>> ELSE <<i.m, i.x>>)
Pos(s, t) == {i \in 1..Len(s) : s[i] = t}
ReadEq(s) ==                            \* after EQ
  IF s = <<>> \/ s[1] # "[" \/ Pos(s, "]") = {} THEN None
  ELSE LET e == Min(Pos(s, "]"))
           n == SubSeq(s, 2, e - 1)
           r == SubSeq(s, e + 1, Len(s))
       IN IF n = <<>> \/ "[" \in ToSet(n) \/ "]" \in ToSet(r) THEN Free
          ELSE IF r = <<>> THEN [k |-> "eq", n |-> n, m |-> "", x |-> ""]
          ELSE IF r[1] = "@" THEN (IF Len(r) = 2 /\ r[2] \in Dates THEN [k |-> "eq", n |-> n, m |-> "@", x |-> r[2]] ELSE None)
          ELSE IF r[1] = ">" THEN (IF Len(r) = 2 /\ r[2] \in Delays THEN [k |-> "eq", n |-> n, m |-> ">", x |-> r[2]] ELSE Free)      \* delays are read when they are used
          ELSE None
Strict(s) == Len(s) = 5 /\ s[1] = "[" /\ s[2] \in Ccys /\ s[3] = "/" /\ s[4] \in Ccys /\ s[5] = "]"
ReadFx(s) == IF Strict(s) THEN [k |-> "fx", f |-> s[2], d |-> s[4]] ELSE IF Strict(SelectSeq(s, LAMBDA t : t # "J1")) THEN Free ELSE None      \* blanks around a currency may be skipped
Read(s) == IF s = <<>> THEN None ELSE IF s[1] = "EQ" THEN ReadEq(Tail(s)) ELSE IF s[1] = "FX" THEN ReadFx(Tail(s)) ELSE None
Init == edits = 0 /\ \E i \in Indices : name = NameOf(i)
Pick(S) == IF R = 0 THEN S ELSE RandomSubset(1, S)
Edit == /\ edits < MaxEdits /\ name # <<>> /\ edits' = edits + 1
        /\ \E p \in Pick(1..Len(name)), w \in Pick({"drop", "put", "turn", "swap"}) :
             CASE w = "drop" -> name' = RemoveAt(name, p)
               [] w = "put" -> \E t \in Pick(Tokens) : name' = InsertAt(name, p, t)
               [] w = "turn" -> \E t \in Pick(Tokens) : name' = ReplaceAt(name, p, t)
               [] OTHER -> name' = (IF p < Len(name) THEN [name EXCEPT ![p] = name[p + 1], ![p + 1] = name[p]] ELSE Append(name, name[p]))
Next == Edit
Spec == Init /\ [][Next]_vars
(* reading gives back the index a name was made from, and no other reading has that name *)
RoundTrip == edits = 0 => \E i \in Indices : Read(name) = i /\ NameOf(i) = name
Canonical == Read(name) \notin {None, Free} => NameOf(Read(name)) = name
Emitted == Emit([name |-> name, read |-> Read(name)])
=============================================================================
