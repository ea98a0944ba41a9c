---------------------------- MODULE ScriptEval ----------------------------
(* C09-C12.  A program grows statement by statement (or by a new event date) and is executed at once on a fixed set
   of market paths: env is the crisp state, fenv the smoothed one, dom the possible values of each variable.  Every
   reachable state is a complete program with its meaning, and is emitted for replay. *)
EXTENDS ScriptLang, Emit
CONSTANTS Pasts,                \* possible histories: sequences of statements before the evaluation date
          Paths,                \* market paths: sequences (one entry per event) of [spot, num]
          Eps,                  \* default smoothing width
          Leaves, CondLeaves, Divisors, \* seeds of the random generator
          Stmts0,               \* statements to choose from: a sequence of sets, by position (the last one repeats)
          MaxStmts, MaxEvents, DomOn, FuzzyOn
VARIABLES past, prog, env, fenv, dom, dz
vars == <<past, prog, env, fenv, dom, dz>>
NP == Len(Paths)
Init == /\ past \in Pasts /\ prog = << <<>> >>
        /\ env = [p \in 1..NP |-> PastAll(past, NoVars)]
        /\ fenv = [p \in 1..NP |-> PastAll(past, NoVars)]
        /\ dom = DExAll(past, NoDoms) /\ dz = DzAll(past, NoDoms)
Size == FoldSeq(LAMBDA x, n : n + Len(x), 0, prog)
K == Len(prog)
Do(st) == /\ Size < MaxStmts
          /\ prog' = [prog EXCEPT ![K] = Append(@, st)]
          /\ env' = [p \in 1..NP |-> IF env[p].ok THEN Ex(st, env[p], Paths[p][K]) ELSE env[p]]
          /\ fenv' = IF FuzzyOn THEN [p \in 1..NP |-> IF fenv[p].ok THEN FEx(st, fenv[p], dom, Paths[p][K], Eps) ELSE fenv[p]] ELSE fenv
          /\ dom' = IF DomOn THEN DEx(st, dom) ELSE dom
          /\ dz' = IF DomOn THEN dz \/ DzS(st, dom) ELSE dz
          /\ UNCHANGED past
NewEvent == /\ K < MaxEvents /\ prog[K] # <<>> /\ Size < MaxStmts
            /\ prog' = Append(prog, <<>>) /\ UNCHANGED <<past, env, fenv, dom, dz>>

-----------------------------------------------------------------------------
(* exhaustive: statements of a given set *)
Choice == IF Size + 1 <= Len(Stmts0) THEN Stmts0[Size + 1] ELSE Stmts0[Len(Stmts0)]
Next == NewEvent \/ (Size < MaxStmts /\ \E st \in Choice : Do(st))
Spec == Init /\ [][Next]_vars

(* random: statements built by random grammar derivations (for simulation) *)
Rnd(S) == CHOOSE x \in {RandomElement(S)} : TRUE
RECURSIVE RE(_), RC(_), RS(_), RSs(_, _)
BuildE(k, d) == CASE k \in 1..3 -> RandomElement(Leaves)
                  [] k = 4 -> <<"ADD", RE(d - 1), RE(d - 1)>> [] k = 5 -> <<"SUB", RE(d - 1), RE(d - 1)>> [] k = 6 -> <<"MUL", RE(d - 1), RE(d - 1)>>
                  [] k = 7 -> <<"DIV", RE(d - 1), RandomElement(Divisors)>> [] k = 8 -> <<"MAX", RE(d - 1), RE(d - 1)>> [] k = 9 -> <<"MIN", RE(d - 1), RE(d - 1)>>
                  [] k = 10 -> <<"UMINUS", RE(d - 1)>> [] k = 11 -> <<"UPLUS", RE(d - 1)>> [] k = 12 -> <<"POW", RE(d - 1), <<"CONST", "2">>>>
                  [] k = 13 -> <<"POW", <<"CONST", "2">>, RE(d - 1)>> [] k = 14 -> <<"LOG", RE(d - 1)>> [] k = 15 -> <<"EXP", RE(d - 1)>>
                  [] k = 16 -> <<"SQRT", RE(d - 1)>> [] k = 17 -> <<"ADD", RE(d - 1), RandomElement(Leaves)>> [] k = 18 -> <<"SUB", RE(d - 1), RandomElement(Leaves)>>
                  [] k = 19 -> <<"MUL", RandomElement(Leaves), RE(d - 1)>>
RE(d) == IF d = 0 THEN RandomElement(Leaves) ELSE CHOOSE e \in {BuildE(k, d) : k \in {RandomElement(1..19)}} : TRUE
BuildC(k, d) == CASE k \in 1..2 -> RandomElement(CondLeaves)
                  [] k \in 3..7 -> <<"CMP", RandomElement({"=", "!=", "<", ">", "<=", ">="}), RE(d), RandomElement(Leaves), RandomElement({"", "", "", "1", "0.25", "0"})>>
                  [] k = 8 -> <<"AND", RC(d - 1), RC(d - 1)>> [] k = 9 -> <<"OR", RC(d - 1), RC(d - 1)>>
RC(d) == IF d = 0 THEN RandomElement(CondLeaves) ELSE CHOOSE e \in {BuildC(k, d) : k \in {RandomElement(1..9)}} : TRUE
BuildS(k, d) == CASE k \in 1..4 -> <<"ASSIGN", RandomElement(Vars), RE(2)>> [] k = 5 -> <<"PAYS", RandomElement(Vars), RE(1)>>
                  [] k = 6 -> <<"ASSIGN", RandomElement(Vars), RandomElement(Leaves)>>
                  [] k \in 7..8 -> <<"IF", RC(1), RSs(d - 1, RandomElement(1..2))>>
                  [] k \in 9..11 -> <<"IF", RC(2), RSs(d - 1, RandomElement(0..2)), RSs(d - 1, RandomElement(0..2))>>
RS(d) == CHOOSE e \in {BuildS(k, d) : k \in {RandomElement(IF d = 0 THEN 1..6 ELSE 1..11)}} : TRUE
RSs(d, n) == IF n = 0 THEN <<>> ELSE <<RS(d)>> \o RSs(d, n - 1)
(* (the depths depend on the state, or TLC would draw once and for all) *)
RNext == \/ NewEvent
         \/ \E st \in {RS(2 + 0 * Size)} : Do(st)
         \/ \E st \in {RS(3 + 0 * Size)} : Do(st)
         \/ \E st \in {RS(1 + 0 * Size)} : Do(st)
RSpec == Init /\ [][RNext]_vars

-----------------------------------------------------------------------------
(* Every decided state keeps its shape, and smoothing never invents undecided conditions' values *)
TypeOk == \A p \in 1..NP : DOMAIN env[p] = Vars \cup {"ok", "fin"} /\ env[p].ok \in BOOLEAN
(* the domain covers the crisp value of every variable *)
DomSound == DomOn => \A p \in 1..NP, v \in Vars : (env[p].ok /\ Fin(dom[v]) /\ Def(env[p][v])) => env[p][v] \in dom[v]
Show(e) == [v \in Vars |-> IF ~e.ok \/ ~Def(e[v]) \/ e[v].a = 1 THEN <<>> ELSE <<e[v].n, e[v].d>>]
Row == [op |-> "eval", dz |-> dz, past |-> past, prog |-> prog,
        ok |-> [p \in 1..NP |-> env[p].ok], fin |-> [p \in 1..NP |-> env[p].ok /\ env[p].fin], env |-> [p \in 1..NP |-> Show(env[p])],
        fok |-> [p \in 1..NP |-> fenv[p].ok], ffin |-> [p \in 1..NP |-> fenv[p].ok /\ fenv[p].fin], fenv |-> [p \in 1..NP |-> Show(fenv[p])]]
Emitted == (prog[K] # <<>>) => Emit(Row)
=============================================================================
