----------------------------- MODULE ThreadPool -----------------------------
(* C15.  The pool's scheme: workers take tasks from the queue; a thread that waits runs queued tasks on top of its
   stack, and sleeps on the future only when the queue is empty.  TLC explores every interleaving of every fork-join
   program up to the bound: tasks run exactly once, a wait ends only after its task, and no program gets stuck,
   whatever the number of workers. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSets
CONSTANTS MaxTasks, MaxWorkers
VARIABLES par, w, q, stack, runs, done
vars == <<par, w, q, stack, runs, done>>
\* forests: par[i] in 0..(i-1), 0 the client program, in pre-order
Forests == UNION {{f \in [1..m -> 0..(m - 1)] : \A i \in 1..m : f[i] < i} : m \in 1..MaxTasks}
Kids(f) == SelectSeq([i \in 1..Len(par) |-> i], LAMBDA i : par[i] = f)
\* frame <<task, step>>: step k <= m spawns child k, then waits for child k - m
Init == /\ par \in Forests /\ w \in 0..MaxWorkers
        /\ q = <<>> /\ stack = [t \in 0..w |-> IF t = 0 THEN <<<<0, 1, "run">>>> ELSE <<>>]
        /\ runs = [i \in 1..Len(par) |-> 0] /\ done = {}
Top(t) == Last(stack[t])
SetTop(t, f) == [stack EXCEPT ![t] = Front(@) \o <<f>>]
Take(t) == /\ q # <<>> /\ q' = Tail(q) /\ runs' = [runs EXCEPT ![q[1]] = @ + 1]
           /\ stack' = [stack EXCEPT ![t] = Append(@, <<q[1], 1, "run">>)] /\ UNCHANGED <<par, w, done>>
Worker(t) == t > 0 /\ stack[t] = <<>> /\ Take(t)
Advance(t) == /\ stack[t] # <<>> /\ Top(t)[3] = "run"
              /\ LET f == Top(t) k == Kids(f[1]) m == Len(k) s == f[2] IN
                 IF s <= m THEN q' = Append(q, k[s]) /\ stack' = SetTop(t, <<f[1], s + 1, "run">>) /\ UNCHANGED <<runs, done>>
                 ELSE IF s <= 2 * m THEN stack' = SetTop(t, <<f[1], s, "check">>) /\ UNCHANGED <<q, runs, done>>
                 ELSE done' = done \cup {f[1]} /\ stack' = [stack EXCEPT ![t] = Front(@)] /\ UNCHANGED <<q, runs>>
              /\ UNCHANGED <<par, w>>
Awaited(t) == Kids(Top(t)[1])[Top(t)[2] - Len(Kids(Top(t)[1]))]
Check(t) == /\ stack[t] # <<>> /\ Top(t)[3] = "check"
            /\ stack' = SetTop(t, IF Awaited(t) \in done THEN <<Top(t)[1], Top(t)[2] + 1, "run">> ELSE <<Top(t)[1], Top(t)[2], "try">>)
            /\ UNCHANGED <<par, w, q, runs, done>>
Try(t) == /\ stack[t] # <<>> /\ Top(t)[3] = "try"
          /\ IF q = <<>> THEN stack' = SetTop(t, <<Top(t)[1], Top(t)[2], "sleep">>) /\ UNCHANGED <<par, w, q, runs, done>>
             ELSE /\ q' = Tail(q) /\ runs' = [runs EXCEPT ![q[1]] = @ + 1] /\ UNCHANGED <<par, w, done>>
                  /\ stack' = [SetTop(t, <<Top(t)[1], Top(t)[2], "check">>) EXCEPT ![t] = Append(@, <<q[1], 1, "run">>)]
Sleep(t) == /\ stack[t] # <<>> /\ Top(t)[3] = "sleep" /\ Awaited(t) \in done
            /\ stack' = SetTop(t, <<Top(t)[1], Top(t)[2], "check">>) /\ UNCHANGED <<par, w, q, runs, done>>
Next == \E t \in DOMAIN stack : Worker(t) \/ Advance(t) \/ Check(t) \/ Try(t) \/ Sleep(t)
Spec == Init /\ [][Next]_vars
Once == \A i \in DOMAIN runs : runs[i] <= 1
\* a task is finished only after all its descendants
Joined == \A i \in DOMAIN par : par[i] \in done => i \in done
NoDeadlock == (~ENABLED Next) => (0 \in done /\ \A i \in DOMAIN runs : runs[i] = 1)
Emitted == (q = <<>> /\ done = {} /\ stack[0] = <<<<0, 1, "run">>>> /\ w = 0) => Emit([par |-> par])
=============================================================================
