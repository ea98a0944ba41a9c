----------------------------- MODULE MonteCarlo -----------------------------
(* C14.  A simulation splits its paths into tasks; any thread may take any task, in any order; each thread has its own
   generator, which it moves to the first path of its task.  Whatever the schedule, every path is counted once, driven by
   the random vector of its own number; if a task fails, the simulation fails. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSets
CONSTANTS MaxPaths, MaxThreads, Batch
VARIABLES n, nt, tasks, cur, pos, counted, failed, out
vars == <<n, nt, tasks, cur, pos, counted, failed, out>>
Size == LET k == (n \div nt) + 1 IN IF k > Batch THEN k ELSE Batch
RECURSIVE Split(_, _)
Split(first, left) == IF left = 0 THEN <<>> ELSE LET k == IF left < Size THEN left ELSE Size IN <<<<first, k>>>> \o Split(first + k, left - k)
Init == /\ n \in 0..MaxPaths /\ nt \in 1..MaxThreads
        /\ tasks = Split(0, n)
        /\ cur = [t \in 0..(nt - 1) |-> <<0, 0>>]                \* next path of the task in hand, paths left
        /\ pos = [t \in 0..(nt - 1) |-> 0]
        /\ counted = [p \in 0..(n - 1) |-> <<>>] /\ failed = FALSE /\ out = "none"
Take(t) == /\ cur[t][2] = 0 /\ tasks # <<>>
           /\ tasks' = Tail(tasks) /\ cur' = [cur EXCEPT ![t] = tasks[1]] /\ pos' = [pos EXCEPT ![t] = tasks[1][1]]
           /\ UNCHANGED <<n, nt, counted, failed, out>>
Path(t) == /\ cur[t][2] > 0
           /\ counted' = [counted EXCEPT ![cur[t][1]] = Append(@, pos[t])]
           /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ cur' = [cur EXCEPT ![t] = <<@[1] + 1, @[2] - 1>>]
           /\ UNCHANGED <<n, nt, tasks, failed, out>>
Fail(t) == /\ cur[t][2] > 0 /\ ~failed /\ failed' = TRUE /\ cur' = [cur EXCEPT ![t] = <<0, 0>>] /\ UNCHANGED <<n, nt, tasks, pos, counted, out>>
Finish == /\ out = "none" /\ tasks = <<>> /\ \A t \in DOMAIN cur : cur[t][2] = 0
          /\ out' = (IF failed THEN "error" ELSE "value") /\ UNCHANGED <<n, nt, tasks, cur, pos, counted, failed>>
Next == Finish \/ \E t \in DOMAIN cur : Take(t) \/ Path(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars
\* a value is the sum over all paths, each once, each with its own random vector
Complete == out = "value" => \A p \in 0..(n - 1) : counted[p] = <<p>>
AtMostOnce == \A p \in 0..(n - 1) : Len(counted[p]) <= 1 /\ (counted[p] # <<>> => counted[p][1] = p)
Emitted == (out = "none" /\ tasks = Split(0, n) /\ ~failed /\ \A t \in DOMAIN cur : cur[t][2] = 0) => Emit([n |-> n, nt |-> nt, tasks |-> tasks])
=============================================================================
