-------------------------------- MODULE Walk --------------------------------
(* Life of a set of particles in one domain: seeding, single steps, runs to  *)
(* a target time, clearing.  A run is broken into one action per particle    *)
(* step; the choice of direction and of the diffusive travel time is         *)
(* nondeterministic within what Routing allows.                              *)
EXTENDS Routing, TLC

CONSTANTS EnvSet,      \* the domains explored
          SeedSet(_),  \* cells to seed in, per domain
          Targets,     \* target times [ms]
          Limits,      \* max_iter values
          MaxP,        \* particles
          MaxLen       \* recorded positions per particle (bounds the search)

VARIABLES env, hist, run
vars == <<env, hist, run>>

Idle == [kind |-> "idle"]
(* run: [kind "step"|"target", T, lim, p current particle, m steps of p,     *)
(*       spent particles that used up the limit]                             *)

Loc(p) == hist[p].path[Len(hist[p].path)]
Clock(p) == hist[p].ts[Len(hist[p].ts)]

Init == env \in EnvSet /\ hist = <<>> /\ run = Idle

Generate == /\ run = Idle /\ Len(hist) < MaxP
            /\ \E c \in SeedSet(env) :
                 hist' = Append(hist, [path |-> <<c>>, ts |-> <<0>>])
            /\ UNCHANGED <<env, run>>

Begin == /\ run = Idle /\ hist # <<>>
         /\ \/ run' = [kind |-> "step", T |-> 0, lim |-> 1, p |-> 1, m |-> 0, spent |-> {}]
            \/ \E T \in Targets, l \in Limits :
                 run' = [kind |-> "target", T |-> T, lim |-> l, p |-> 1, m |-> 0, spent |-> {}]
         /\ UNCHANGED <<env, hist>>

NextParticle(r) == IF r.p = Len(hist) THEN [kind |-> "done", r |-> r]
                   ELSE [r EXCEPT !.p = @ + 1, !.m = 0]

(* may/must the current particle take (another) step in this run?            *)
Wants(r) == /\ r.m < r.lim
            /\ IF r.kind = "step" THEN TRUE
               ELSE Ahead(hist[r.p].ts, Len(hist[r.p].ts), r.T) <= 0

Times(c, k) == LET lo == Max2(0, TimeLo(env, c, k))
                   hi == TimeHi(env, c, k)
               IN {lo, hi}

Move == /\ run.kind \in {"step", "target"}
        /\ Wants(run)
        /\ Len(hist[run.p].path) < MaxLen
        /\ LET c == Loc(run.p)
           IN IF Frozen(env, c)
              THEN run' = NextParticle(run) /\ UNCHANGED <<env, hist>>
              ELSE \E k \in MoveSet(env, c) :
                   IF k = Stay
                   THEN run' = NextParticle(run) /\ UNCHANGED <<env, hist>>
                   ELSE \E dt \in Times(c, k) :
                        /\ hist' = [hist EXCEPT ![run.p] =
                              [path |-> Append(@.path, Nb(c, k)),
                               ts |-> Append(@.ts, Min2(HUGE, Clock(run.p) + dt))]]
                        /\ LET r == [run EXCEPT !.m = @ + 1]
                           IN run' = IF r.m >= r.lim
                                     THEN NextParticle([r EXCEPT !.spent = @ \cup {r.p}])
                                     ELSE r
                        /\ UNCHANGED env

Skip == /\ run.kind \in {"step", "target"}
        /\ ~Wants(run)
        /\ run' = NextParticle(run)
        /\ UNCHANGED <<env, hist>>

End == run.kind = "done" /\ run' = Idle /\ UNCHANGED <<env, hist>>

Clear == run = Idle /\ hist # <<>> /\ hist' = <<>> /\ UNCHANGED <<env, run>>

Next == Generate \/ Begin \/ Move \/ Skip \/ End \/ Clear
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Move \/ Skip \/ End)

----------------------------------------------------------------------------
Particles == DOMAIN hist
Steps(p) == 2 .. Len(hist[p].path)

TypeOK == /\ run.kind \in {"idle", "step", "target", "done"}
          /\ \A p \in Particles : Len(hist[p].path) = Len(hist[p].ts)

Containment == \A p \in Particles :
  /\ \A j \in DOMAIN hist[p].path : Inside(env, hist[p].path[j])
  /\ \A j \in Steps(p) : Adjacent(hist[p].path[j - 1], hist[p].path[j])

Absorbed == \A p \in Particles : \A j \in Steps(p) : ~NearEdge(env, hist[p].path[j - 1])

(* once out of dead water, particles only enter wet, non land cells          *)
StaysWet == \A p \in Particles : \A j \in Steps(p) :
  LET c == hist[p].path[j - 1]
      k == DirOf(c, hist[p].path[j])
  IN ~DeadEnd(env, c) => Admissible(env, c, k)

(* with no inertia, every step goes down the water surface                   *)
Downhill == env.gamma = 100 =>
  \A p \in Particles : \A j \in Steps(p) :
     ~DeadEnd(env, hist[p].path[j - 1]) =>
        Stage(env, hist[p].path[j]) < Stage(env, hist[p].path[j - 1])

Monotone == \A p \in Particles : \A j \in Steps(p) :
  hist[p].ts[j] >= hist[p].ts[j - 1]

(* no run starts a step at or after its target, and none exceeds its limit   *)
TargetRespected ==
  run.kind = "target" =>
    /\ run.m <= run.lim
    /\ run.m > 0 => LET n == Len(hist[run.p].ts) IN hist[run.p].ts[n - 1] < run.T

(* after a run every particle is done for a reason                           *)
Settled ==
  run.kind = "done" /\ run.r.kind = "target" =>
    \A p \in Particles :
      \/ p \in run.r.spent
      \/ Frozen(env, Loc(p))
      \/ Stay \in MoveSet(env, Loc(p))
      \/ Ahead(hist[p].ts, Len(hist[p].ts), run.r.T) > 0

ProbsSumToOne == hist = <<>> => \A c \in Cells(env) :
  Border(env, c) \/
    LET s == SumDirs(Probs(env, c)) IN s <= 10000 /\ s >= 9980
SupportIsPositive == hist = <<>> => \A c \in Cells(env) :
  Border(env, c) \/ \A k \in Dirs :
     (Probs(env, c)[k] > 10) => k \in Support(env, c)
BestIsSupported == hist = <<>> => \A c \in Cells(env) : Best(env, c) \subseteq Support(env, c)

(* recorded positions are never rewritten                                    *)
AppendOnly == [][ hist' = <<>> \/
   \A p \in Particles : /\ Len(hist'[p].path) >= Len(hist[p].path)
                        /\ SubSeq(hist'[p].path, 1, Len(hist[p].path)) = hist[p].path
                        /\ SubSeq(hist'[p].ts, 1, Len(hist[p].ts)) = hist[p].ts ]_vars

Terminates == (run.kind \in {"step", "target"}) ~> (run = Idle \/ \E p \in Particles : Len(hist[p].path) = MaxLen)
=============================================================================
