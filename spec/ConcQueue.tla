----------------------------- MODULE ConcQueue -----------------------------
(* C16.  The queue's protocol at the level of its lock and condition variable: every interleaving of client
   programs, with spurious wake-ups.  A ghost copy of the atomic queue is updated at the point where the lock
   is held; results must agree with it, and nobody may be left waiting while there is something to do. *)
EXTENDS Emit, Integers, SequencesExt, FiniteSets
CONSTANTS Programs, Spurious
VARIABLES prog, pc, ip, lock, waiting, items, intr, got, pushed, budget
vars == <<prog, pc, ip, lock, waiting, items, intr, got, pushed, budget>>
T == 1..Len(prog)
Op(t) == prog[t][ip[t]]
Over(t) == ip[t] > Len(prog[t])
Init == /\ prog \in Programs
        /\ pc = [t \in 1..Len(prog) |-> "start"] /\ ip = [t \in 1..Len(prog) |-> 1]
        /\ lock = 0 /\ waiting = {} /\ items = <<>> /\ intr = FALSE /\ got = <<>> /\ pushed = <<>> /\ budget = Spurious
Acquire(t) == /\ pc[t] \in {"start", "woken"} /\ ~Over(t) /\ lock = 0
              /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "in"]
              /\ UNCHANGED <<prog, ip, waiting, items, intr, got, pushed, budget>>
Step(t, k) == pc' = [pc EXCEPT ![t] = k]
\* the body under the lock, ending with its release
Body(t) == /\ pc[t] = "in"
           /\ LET o == Op(t)[1] IN
              \/ /\ o = "P" /\ items' = Append(items, Op(t)[2]) /\ pushed' = Append(pushed, Op(t)[2]) /\ Step(t, "notify1") /\ lock' = 0
                 /\ UNCHANGED <<waiting, intr, got, ip>>
              \/ /\ o = "T" /\ lock' = 0 /\ Step(t, "start") /\ ip' = [ip EXCEPT ![t] = @ + 1] /\ UNCHANGED <<waiting, intr, pushed>>
                 /\ IF items = <<>> THEN UNCHANGED <<items, got>> ELSE items' = Tail(items) /\ got' = Append(got, items[1])
              \/ /\ o = "O" /\ lock' = 0 /\ UNCHANGED <<intr, pushed>>
                 /\ IF ~intr /\ items = <<>> THEN Step(t, "waiting") /\ waiting' = waiting \cup {t} /\ UNCHANGED <<items, got, ip>>
                    ELSE /\ Step(t, "start") /\ ip' = [ip EXCEPT ![t] = @ + 1] /\ UNCHANGED waiting
                         /\ IF intr THEN UNCHANGED <<items, got>> ELSE items' = Tail(items) /\ got' = Append(got, items[1])
              \/ /\ o = "I" /\ intr' = TRUE /\ lock' = 0 /\ Step(t, "notifyall") /\ UNCHANGED <<waiting, items, got, pushed, ip>>
              \/ /\ o = "R" /\ intr' = FALSE /\ lock' = 0 /\ Step(t, "start") /\ ip' = [ip EXCEPT ![t] = @ + 1] /\ UNCHANGED <<waiting, items, got, pushed>>
           /\ UNCHANGED <<prog, budget>>
Wake(S) == [u \in DOMAIN pc |-> IF u \in S THEN "woken" ELSE pc[u]]
Notify(t) == /\ pc[t] \in {"notify1", "notifyall"}
             /\ \E S \in (IF pc[t] = "notifyall" THEN {waiting} ELSE IF waiting = {} THEN {{}} ELSE {{u} : u \in waiting}) :
                   /\ waiting' = waiting \ S
                   /\ pc' = [Wake(S) EXCEPT ![t] = "start"]
             /\ ip' = [ip EXCEPT ![t] = @ + 1]
             /\ UNCHANGED <<prog, lock, items, intr, got, pushed, budget>>
Spur(t) == /\ budget > 0 /\ t \in waiting /\ waiting' = waiting \ {t} /\ pc' = [pc EXCEPT ![t] = "woken"] /\ budget' = budget - 1
           /\ UNCHANGED <<prog, ip, lock, items, intr, got, pushed>>
Next == \E t \in T : Acquire(t) \/ Body(t) \/ Notify(t) \/ Spur(t)
Spec == Init /\ [][Next]_vars
\* items come out in push order, each at most once
Fifo == IsPrefix(got, pushed) /\ pushed = got \o items
\* nobody is left waiting with work to do: when only waiters remain the queue is empty and not interrupted
Quiet == \A t \in T : (Over(t) /\ pc[t] = "start") \/ pc[t] = "waiting"
NoStranded == (Quiet /\ waiting # {}) => (items = <<>> /\ ~intr)
TypeOk == lock \in 0..4
Emitted == ip = [t \in 1..Len(prog) |-> 1] /\ pc = [t \in 1..Len(prog) |-> "start"] => Emit([prog |-> prog])
=============================================================================
