------------------------------ MODULE PoolHist ------------------------------
(* C15.  What clients of the thread pool may observe.  Histories recorded from the code - spawning, starting,
   finishing and waiting for tasks, starting and stopping the pool - are replayed; a legal one is printed.

   Events <<kind, a, thread, b>>:
     p/q  SpawnTask(a) called / returned (b: the caller's thread number)      s/f  task a starts (b: thread number) / finishes
     w/d  ActiveWait(a) called / returned, b = result + 10 if it ran tasks     v/u  the same for the future's own wait
     g/h  Start(a, restart = b) called / returned with b threads               x/y  Stop called / returned with b threads
   results: 0/1 the value of the task, 2 its exception, 3 broken promise. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSets
CONSTANTS Hists,       \* {[id, ev, kind, procs]}: kind[i+1] of task i: "v" value, "x" throws, "n" value without waiting for children
          MaxThread
Threads == 0..MaxThread
VARIABLES h, i, st, stack, num, n, active, stopping, before       \* before[a]: tasks whose submission returned before that of a was called
vars == <<h, i, st, stack, num, n, active, stopping, before>>
Tasks == 0..(Len(h.kind) - 1)
Ev == h.ev
E == Ev[i]
A == E[2]
T == E[3]
B == E[4]
Init == /\ h \in Hists /\ i = 1
        /\ st = [t \in 0..(Len(h.kind) - 1) |-> "none"]
        /\ stack = [t \in Threads |-> <<>>] /\ num = [t \in Threads |-> -1]       \* -1 unknown, -2 a worker that has ended
        /\ before = [t \in 0..(Len(h.kind) - 1) |-> {}]
        /\ n = 1 /\ active = TRUE /\ stopping = FALSE       \* the process starts with one processor: a pool without workers
Top(t) == Last(stack[t])
Push(t, f) == stack' = [stack EXCEPT ![t] = Append(@, f)]
Pop1(t) == stack' = [stack EXCEPT ![t] = Front(@)]
\* the thread may act for a client: outside the pool (number 0) or inside one of its tasks
Client(t) == IF stack[t] = <<>> THEN num[t] \in {-1, 0} ELSE Top(t)[1] = "t"
Outside == [num EXCEPT ![T] = IF stack[T] = <<>> THEN 0 ELSE @]
Spawn == /\ Client(T) /\ st[A] = "none" /\ B = (IF num[T] = -1 THEN 0 ELSE num[T])
         /\ st' = [st EXCEPT ![A] = "called"] /\ num' = Outside
         /\ before' = [before EXCEPT ![A] = {t \in Tasks : st[t] = "queued"}] /\ UNCHANGED <<stack, n, active, stopping>>
Spawned == /\ st' = [st EXCEPT ![A] = IF @ = "called" THEN "queued" ELSE @] /\ UNCHANGED <<stack, num, n, active, stopping>>
\* other threads that may have taken a task and not started it yet
Takers == Cardinality({t \in Threads \ {T} : (num[t] > 0 /\ stack[t] = <<>>) \/ (stack[t] # <<>> /\ Top(t)[1] = "w")})
          + (n - 1 - Cardinality({t \in Threads : num[t] > 0})) - (IF stack[T] = <<>> /\ num[T] = -1 THEN 1 ELSE 0)
InOrder == stopping \/ Cardinality({t \in before[A] : st[t] = "queued"}) <= Takers
StartTask ==
    /\ InOrder
    /\ st[A] \in {"called", "queued", "maybe"}                      \* never twice, never after being dropped
    /\ st' = [st EXCEPT ![A] = "running"]
    /\ Push(T, <<"t", A, FALSE>>)
    /\ IF stack[T] = <<>> /\ num[T] # 0
       THEN /\ num[T] # -2 /\ n > 1                                  \* a worker of the running pool
            /\ IF num[T] = -1 THEN B \in 1..(n - 1) /\ (\A u \in Threads : num[u] # B) /\ num' = [num EXCEPT ![T] = B]
               ELSE B = num[T] /\ UNCHANGED num
       ELSE /\ stack[T] # <<>> /\ Top(T)[1] = "w" /\ B = num[T] /\ UNCHANGED num    \* a thread that waits
    /\ UNCHANGED <<n, active, stopping>>
FinishTask == /\ stack[T] # <<>> /\ Top(T)[1] = "t" /\ Top(T)[2] = A /\ st[A] = "running"
              /\ st' = [st EXCEPT ![A] = "done"]
              /\ LET rest == Front(stack[T])                          \* the wait beneath has run something
                 IN stack' = [stack EXCEPT ![T] = IF rest = <<>> THEN rest ELSE Front(rest) \o <<<<Last(rest)[1], Last(rest)[2], TRUE>>>>]
              /\ UNCHANGED <<num, n, active, stopping>>
Wait == /\ Client(T) /\ st[A] # "none" /\ Push(T, <<IF E[1] = "w" THEN "w" ELSE "v", A, FALSE>>) /\ num' = Outside
        /\ UNCHANGED <<st, n, active, stopping>>
Value(a) == IF h.kind[a + 1] = "x" THEN 2 ELSE a % 2
Waited == /\ stack[T] # <<>> /\ Top(T)[1] = (IF E[1] = "d" THEN "w" ELSE "v") /\ Top(T)[2] = A
          /\ B \div 10 = (IF Top(T)[3] THEN 1 ELSE 0)
          /\ LET r == B % 10 IN
             \/ st[A] = "done" /\ r = Value(A)
             \/ st[A] \in {"dropped", "maybe"} /\ r = 3
             \/ stopping /\ st[A] \in {"called", "queued"} /\ r = 3
          /\ st' = [st EXCEPT ![A] = IF @ = "maybe" THEN "dropped" ELSE @]
          /\ Pop1(T) /\ UNCHANGED <<num, n, active, stopping>>
Clip(k) == IF k <= 0 \/ k > h.procs THEN h.procs ELSE k
\* a stop: running tasks have finished, waiting ones are dropped (unless a waiting client has just taken them)
Helping == \E t \in Threads : num[t] = 0 /\ stack[t] # <<>> /\ Top(t)[1] = "w"
Gone == /\ \A t \in Threads : num[t] > 0 => stack[t] = <<>>
        /\ st' = [t \in Tasks |-> IF st[t] = "queued" THEN (IF Helping THEN "maybe" ELSE "dropped") ELSE IF st[t] = "called" THEN "maybe" ELSE st[t]]
        /\ num' = [t \in Threads |-> IF num[t] > 0 THEN -2 ELSE num[t]]
StartCall == /\ IF B = 1 /\ active THEN stopping' = TRUE ELSE UNCHANGED stopping
             /\ IF B = 1 \/ ~active THEN n' = Clip(A) ELSE UNCHANGED n
             \* the programs restart only a pool that is at rest: its old workers run nothing any more
             /\ num' = [t \in Threads |-> IF B = 1 /\ active /\ num[t] > 0 THEN -2 ELSE num[t]]
             /\ UNCHANGED <<st, stack, active>>
StartRet == /\ B = n /\ active' = TRUE /\ stopping' = FALSE /\ UNCHANGED <<st, stack, n, num>>
StopCall == stopping' = active /\ UNCHANGED <<st, stack, num, n, active>>
StopRet == /\ B = 1 /\ n' = 1 /\ active' = FALSE /\ stopping' = FALSE /\ UNCHANGED stack
           /\ IF active THEN Gone ELSE UNCHANGED <<st, num>>
Step == /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED h
        /\ (E[1] # "p" => UNCHANGED before)
        /\ CASE E[1] = "p" -> Spawn [] E[1] = "q" -> Spawned [] E[1] = "s" -> StartTask [] E[1] = "f" -> FinishTask
             [] E[1] \in {"w", "v"} -> Wait [] E[1] \in {"d", "u"} -> Waited
             [] E[1] = "g" -> StartCall [] E[1] = "h" -> StartRet [] E[1] = "x" -> StopCall [] E[1] = "y" -> StopRet
Next == Step
Spec == Init /\ [][Next]_vars
\* at the end every wait has returned, nothing is running
Accepted == i > Len(Ev) /\ \A t \in Threads : stack[t] = <<>>
Emitted == Accepted => Emit([h |-> h.id])
=============================================================================
