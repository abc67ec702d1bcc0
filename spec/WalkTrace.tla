----------------------------- MODULE WalkTrace -----------------------------
(* Checks recordings of the real dorado.particle_track.Particles against     *)
(* Routing/Walk.  A recording is a list of episodes; an episode is a list of *)
(* calls on one or more Particles objects, each with the complete walk data  *)
(* of every object after the call.  The verdict is total: every call is      *)
(* judged, failing clauses are collected, and checking resumes from the      *)
(* recorded state.                                                           *)
EXTENDS Walks, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.TRACE)
Envs == Trace.envs
Episodes == Trace.episodes

VARIABLES ep, ev, hist, fails, seen
vars == <<ep, ev, hist, fails, seen>>

F(clause, p, info) == WF(clause, p, info)

----------------------------------------------------------------------------
StepFails(e, o, x) ==
  LET w == x.all[x.obj]
  IN IF IsNone(o)
     THEN IF x.err # "ValueError" THEN {F("api.norun", 0, x.err)} ELSE {}
     ELSE IF x.err # "" THEN {F("api.error", 0, x.err)}
     ELSE Common(e, o, w) \cup
       (IF IsNone(w) \/ NP(w) # NP(o) \/ ~Sizes(w) THEN {}
        ELSE UNION { IF ~Sound(o, w, p) THEN {}
               ELSE LET m == Len(w.x[p]) - Len(o.x[p])
                    IN (IF m > 1 THEN {F("hist.onestep", p, m)} ELSE {})
                       \cup (IF m = 0 /\ MustMove(e, Loc(o, p))
                             THEN {F("progress.stuck", p, Loc(o, p))} ELSE {})
             : p \in 1 .. NP(o) })

TargetFails(e, o, x) ==
  LET w == x.all[x.obj]
      n0(p) == Len(o.x[p])
      m(p) == Len(w.x[p]) - Len(o.x[p])
      good == ~IsNone(w) /\ NP(w) = NP(o) /\ Sizes(w)
      P == {p \in 1 .. NP(o) : Sound(o, w, p)}
      Spent == {p \in P : m(p) >= x.maxit}
      Named == {x.warnids[i] + 1 : i \in DOMAIN x.warnids}
  IN IF IsNone(o)
     THEN IF x.err # "ValueError" THEN {F("api.norun", 0, x.err)} ELSE {}
     ELSE IF x.err # "" THEN {F("api.error", 0, x.err)}
     ELSE Common(e, o, w) \cup
       (IF ~good THEN {}
        ELSE UNION {
               (IF m(p) > x.maxit THEN {F("limit.exceeded", p, m(p))} ELSE {})
               \cup (IF \E j \in n0(p) .. (Len(w.x[p]) - 1) : ~MayContinue(w.t[p], j, x.T)
                     THEN {F("target.overrun", p, <<x.T, w.t[p]>>)} ELSE {})
               \cup (IF /\ m(p) < x.maxit
                        /\ MustContinue(w.t[p], Len(w.t[p]), x.T)
                        /\ MustMove(e, Loc(w, p))
                     THEN {F("target.early", p, <<x.T, w.t[p]>>)} ELSE {})
             : p \in P }
             \cup (IF x.verbose /\ Spent # {} /\ x.warn = 0
                   THEN {F("limit.nowarning", MinOf(Spent), x.maxit)} ELSE {})
             \cup (IF (Spent = {} \/ ~x.verbose) /\ x.warn > 0
                   THEN {F("limit.spurious", 0, x.maxit)} ELSE {})
             \cup (IF x.warn > 0 /\ Spent # {} /\ x.warnlist /\ Named # Spent
                   THEN {F("limit.names", 0, <<Named, Spent>>)} ELSE {}))

----------------------------------------------------------------------------
(* seeding                                                                   *)
ConcatWalk(a, b) == IF IsNone(a) THEN b ELSE IF IsNone(b) THEN a ELSE a

GenFails(e, o, x) ==
  LET w == x.all[x.obj]
      pv == x.prev
      nOld == NP(pv) + NP(o)
      new == (nOld + 1) .. (nOld + x.n)
      k == Len(x.xs)
  IN IF x.bad # ""
     THEN IF x.err = "" \/ (x.bad # "any" /\ x.err # x.bad)
          THEN {F("gen.reject", 0, <<x.bad, x.err>>)}
          ELSE IF w # o THEN {F("gen.rejectchanged", 0, x.bad)} ELSE {}
     ELSE IF x.err # "" THEN {F("api.error", 0, x.err)}
     ELSE IF IsNone(w) THEN {F("gen.count", 0, "no walk data")}
     ELSE IF NP(w) # nOld + x.n \/ ~Sizes(w) THEN {F("gen.count", 0, <<NP(w), nOld + x.n>>)}
     ELSE (IF x.np # NP(w) THEN {F("gen.np", 0, x.np)} ELSE {})
       \cup (IF x.warned # (x.verbose /\ x.t0 # 0) THEN {F("gen.warning", 0, <<x.t0, x.verbose, x.warned>>)} ELSE {})
       \cup (IF ~x.prevsame THEN {F("gen.prevchanged", 0, "previous walk data modified")} ELSE {})
       \cup UNION { IF ~Aligned(w, p) THEN {F("gen.aligned", p, "lengths")} ELSE {} : p \in 1 .. NP(w) }
       \cup UNION { IF Aligned(w, p)
                       /\ ~(KeptAs(e, pv, p, w, p) /\ Len(w.x[p]) = Len(pv.x[p]))
                    THEN {F("gen.previous", p, "changed")}
                    ELSE IF Aligned(w, p) /\ ~KeptVars(e, pv, p, w, p)
                    THEN {F("gen.prevvars", p, "changed")} ELSE {}
                  : p \in 1 .. NP(pv) }
       \cup UNION { LET q == NP(pv) + p
                    IN IF Aligned(w, q)
                          /\ ~(KeptAs(e, o, p, w, q) /\ Len(w.x[q]) = Len(o.x[p]))
                       THEN {F("gen.internal", p, "changed")}
                       ELSE IF Aligned(w, q) /\ ~KeptVars(e, o, p, w, q)
                       THEN {F("gen.intvars", p, "changed")} ELSE {}
                  : p \in 1 .. NP(o) }
       \cup UNION { IF ~Aligned(w, p) THEN {}
                    ELSE IF Len(w.x[p]) # 1 THEN {F("gen.single", p, Len(w.x[p]))}
                    ELSE (IF w.t[p][1] # x.t0 THEN {F("gen.time", p, w.t[p][1])} ELSE {})
                      \cup (IF x.method = "exact"
                            THEN LET i == ((p - nOld - 1) % k) + 1
                                 IN IF w.x[p][1] # x.xs[i] \/ w.y[p][1] # x.ys[i]
                                    THEN {F("gen.exact", p, <<w.x[p][1], w.y[p][1]>>)} ELSE {}
                            ELSE IF w.x[p][1] \notin SeqSet(x.xs)
                                    \/ w.y[p][1] \notin SeqSet(x.ys)
                            THEN {F("gen.random", p, <<w.x[p][1], w.y[p][1]>>)} ELSE {})
                      \cup VarClauses(e, p, w, 1)
                  : p \in new }
       \* every row and column of the lists can be drawn (n is chosen so large
       \* that missing one by chance is out of the question)
       \cup (IF /\ x.spread
                /\ \/ SeqSet(x.xs) # {w.x[p][1] : p \in new}
                   \/ SeqSet(x.ys) # {w.y[p][1] : p \in new}
             THEN {F("gen.spread", 0, <<x.xs, x.ys>>)} ELSE {})

----------------------------------------------------------------------------
EventFails(x, h) ==
  LET e == Envs[x.env]
      o == h[x.obj]
      own == CASE x.op = "gen" -> GenFails(e, o, x)
               [] x.op = "step" -> StepFails(e, o, x)
               [] x.op = "target" -> TargetFails(e, o, x)
               [] x.op = "clear" ->
                    IF ~IsNone(x.all[x.obj]) THEN {F("api.clear", 0, "")} ELSE {}
               [] OTHER -> {}
      others == UNION { IF i # x.obj /\ x.all[i] # h[i]
                        THEN {F("isolate.other", i, "changed by another object")} ELSE {}
                      : i \in DOMAIN h }
      ret == IF x.op \in {"step", "target"} /\ x.err = "" /\ ~x.retsame
             THEN {F("hist.returned", 0, "returned walk data differ from the stored")} ELSE {}
      tw == Episodes[ep].twin
      rep == IF tw > 0 /\ (ev + 1 > Len(Episodes[tw].events)
                           \/ Episodes[tw].events[ev + 1].all[x.obj] # x.all[x.obj]
                           \/ Episodes[tw].events[ev + 1].err # x.err)
             THEN {F("repeat.differs", 0, tw)} ELSE {}
  IN own \cup others \cup ret \cup rep

Tag(S, a, b) == {[ep |-> a, ev |-> b, clause |-> f.clause, p |-> f.p,
                  info |-> ToString(f.info)] : f \in S}

Init == ep = 1 /\ ev = 0 /\ hist = <<>> /\ fails = {} /\ seen = [steps |-> 0, events |-> 0]

Moved(x, h) == IF x.op \in {"step", "target"} /\ ~IsNone(x.all[x.obj]) /\ ~IsNone(h[x.obj])
               THEN SumSeq([p \in 1 .. Min2(NP(x.all[x.obj]), NP(h[x.obj])) |->
                              Max2(0, Len(x.all[x.obj].x[p]) - Len(h[x.obj].x[p]))])
               ELSE 0

Next ==
  /\ ep <= Len(Episodes)
  /\ IF ev >= Len(Episodes[ep].events)
     THEN ep' = ep + 1 /\ ev' = 0 /\ hist' = <<>> /\ UNCHANGED <<fails, seen>>
     ELSE LET x == Episodes[ep].events[ev + 1]
          IN /\ ev' = ev + 1 /\ ep' = ep
             /\ IF x.op = "new"
                THEN /\ hist' = Append(hist, NoWalk)
                     /\ fails' = fails \cup
                          (IF x.err # "" THEN Tag({F("api.error", 0, x.err)}, ep, ev + 1) ELSE {})
                     /\ seen' = [seen EXCEPT !.events = @ + 1]
                ELSE /\ fails' = fails \cup Tag(EventFails(x, hist), ep, ev + 1)
                     /\ hist' = x.all
                     /\ seen' = [steps |-> seen.steps + Moved(x, hist),
                                 events |-> seen.events + 1]

Spec == Init /\ [][Next]_vars

Done == ep > Len(Episodes) =>
          JsonSerialize(IOEnv.OUT, [fails |-> SetToSeq(fails), seen |-> seen,
                                    episodes |-> Len(Episodes)])
=============================================================================
