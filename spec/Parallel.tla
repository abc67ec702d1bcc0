------------------------------ MODULE Parallel ------------------------------
(* Routing in parallel: a parent hands one task per core to a pool of        *)
(* workers.  A worker process starts as a copy of the parent (its random     *)
(* state and the particle object included), takes tasks in any order,        *)
(* possibly several, and returns each result; the parent merges the results  *)
(* by task number.  Random sequences are abstracted to (stream, draws so     *)
(* far): two walks are dependent if they used a common part of a stream.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

CONSTANT Reseed      \* TRUE: a task sets its own stream; FALSE: as inherited
Level == IF "MCLEVEL" \in DOMAIN IOEnv THEN IOEnv.MCLEVEL ELSE "0"
N == IF Level = "0" THEN 3 ELSE 4        \* cores = tasks = workers
Np == 2                                  \* particles per task
Draws == 2                               \* random numbers per particle

Tasks == 1 .. N
Workers == 1 .. N

VARIABLES parent,  \* [rng, obj]: the caller's random state and particle object
          wk,      \* worker -> [rng, obj, task, walked]
          todo,    \* tasks not taken
          done,    \* task -> result (sequence of particles) or <<>>
          merged   \* what the caller gets, <<>> before

vars == <<parent, wk, todo, done, merged>>

Stream(s) == [stream |-> s, used |-> 0]
Idle(p) == [rng |-> p.rng, obj |-> p.obj, task |-> 0, left |-> 0, walked |-> <<>>]

Init == /\ parent = [rng |-> Stream(0), obj |-> <<>>]
        /\ wk = [w \in Workers |-> Idle([rng |-> Stream(0), obj |-> <<>>])]
        /\ todo = Tasks
        /\ done = [t \in Tasks |-> <<>>]
        /\ merged = <<>>

(* a task arrives with its own copy of the particle object                   *)
Take(w, t) ==
  /\ wk[w].task = 0 /\ t \in todo
  /\ todo' = todo \ {t}
  /\ wk' = [wk EXCEPT ![w] = [rng |-> IF Reseed THEN Stream(t) ELSE @.rng,
                              obj |-> parent.obj, task |-> t, left |-> Np, walked |-> <<>>]]
  /\ UNCHANGED <<parent, done, merged>>

Walk1(w) ==
  /\ wk[w].task # 0 /\ wk[w].left > 0
  /\ LET r == wk[w].rng
         p == [task |-> wk[w].task, stream |-> r.stream, from |-> r.used, to |-> r.used + Draws]
     IN wk' = [wk EXCEPT ![w].rng.used = @ + Draws, ![w].left = @ - 1,
                         ![w].walked = Append(@, p), ![w].obj = Append(@, p)]
  /\ UNCHANGED <<parent, todo, done, merged>>

Return(w) ==
  /\ wk[w].task # 0 /\ wk[w].left = 0
  /\ done' = [done EXCEPT ![wk[w].task] = wk[w].obj]
  /\ wk' = [wk EXCEPT ![w].task = 0, ![w].walked = <<>>]
  /\ UNCHANGED <<parent, todo, merged>>

RECURSIVE Cat(_)
Cat(t) == IF t = 0 THEN <<>> ELSE Cat(t - 1) \o done[t]
Merge == /\ merged = <<>> /\ todo = {}
         /\ \A t \in Tasks : done[t] # <<>>
         /\ merged' = Cat(N)
         /\ UNCHANGED <<parent, wk, todo, done>>

Next == \/ \E w \in Workers, t \in Tasks : Take(w, t)
        \/ \E w \in Workers : Walk1(w) \/ Return(w)
        \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Complete == merged # <<>> => Len(merged) = N * Np
InOrder == \A i \in DOMAIN merged : merged[i].task = ((i - 1) \div Np) + 1
Untouched == parent = [rng |-> Stream(0), obj |-> <<>>]
Independent ==
  \A i, j \in DOMAIN merged :
     (i < j /\ merged[i].stream = merged[j].stream)
        => merged[i].to <= merged[j].from \/ merged[j].to <= merged[i].from
(* with streams of their own the result does not depend on the schedule      *)
Deterministic == merged # <<>> => \A i \in DOMAIN merged :
   /\ merged[i].stream = ((i - 1) \div Np) + 1
   /\ merged[i].from = ((i - 1) % Np) * Draws
Finishes == <>(merged # <<>>)
=============================================================================
