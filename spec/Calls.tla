------------------------------- MODULE Calls -------------------------------
(* Calls of library functions on separate data by several threads.  What a call gives is a matter of its arguments (its   *)
(* task) alone: it is what the same call gives in a process that has called nothing before, whatever was called before,   *)
(* is under way in other threads or further up the same thread's stack.  Operands that are only read stay as they are.    *)
EXTENDS Integers, Sequences, TLC

VARIABLES known,      \* task |-> its result
          running,    \* thread |-> the task under way, or Idle
          operands    \* the state of what is read by all
vars == <<known, running, operands>>
Idle == <<>>
Init == known = <<>> /\ running = <<>> /\ operands = 0

Threads(n, shared) == known' = <<>> /\ running' = [t \in 1..n |-> Idle] /\ operands' = shared
Alone(task, res) == task \notin DOMAIN known /\ known' = known @@ (task :> res) /\ UNCHANGED <<running, operands>>
Start(t, task) == t \in DOMAIN running /\ running[t] = Idle /\ task # Idle /\ running' = [running EXCEPT ![t] = task] /\ UNCHANGED <<known, operands>>
\* Like(a, b): results are the same
Finish(t, res, Like(_, _)) == t \in DOMAIN running /\ running[t] \in DOMAIN known /\ Like(res, known[running[t]])
                              /\ running' = [running EXCEPT ![t] = Idle] /\ UNCHANGED <<known, operands>>
End(shared, races) == (\A t \in DOMAIN running : running[t] = Idle) /\ shared = operands /\ races = 0 /\ UNCHANGED vars
=============================================================================
