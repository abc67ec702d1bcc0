------------------------------- MODULE Walks -------------------------------
(* Rules for recorded walk data w: w.x, w.y (cells), w.t (times) and w.vars  *)
(* (tracked variables), one sequence per particle.  Each operator returns    *)
(* the set of clauses a recording contradicts.                               *)
EXTENDS Routing

NoWalk == [none |-> TRUE]
IsNone(w) == "none" \in DOMAIN w
NP(w) == IF IsNone(w) THEN 0 ELSE Len(w.x)

WF(clause, p, info) == [clause |-> clause, p |-> p, info |-> info]
SeqSet(s) == {s[i] : i \in DOMAIN s}

(* one recorded step of one particle                                         *)
StepClauses(e, p, c, d, t, t2) ==
  LET inC == Inside(e, c)
      inD == Inside(e, d)
  IN IF ~inC THEN {}
     ELSE (IF ~inD THEN {WF("contain.inside", p, <<c, d>>)} ELSE {})
       \cup (IF ~Adjacent(c, d) THEN {WF("contain.adjacent", p, <<c, d>>)} ELSE {})
       \cup (IF Frozen(e, c) THEN {WF("absorb.moved", p, <<c, d>>)} ELSE {})
       \cup (IF t2 = BADT THEN {WF("time.finite", p, <<c, d>>)} ELSE {})
       \cup (IF t2 # BADT /\ t2 < t THEN {WF("time.backwards", p, <<c, d, t, t2>>)} ELSE {})
       \cup (IF inD /\ Adjacent(c, d) /\ ~Frozen(e, c)
             THEN LET k == DirOf(c, d)
                      sup == Support(e, c)
                  IN (IF k \notin sup
                      THEN {WF(IF DeadEnd(e, c) THEN "route.deadend"
                              ELSE IF Admissible(e, c, k) THEN "route.against"
                              ELSE "route.dry", p, <<c, d>>)}
                      ELSE {})
                     \cup (IF e.sd /\ k \notin Best(e, c)
                           THEN {WF("steep.notbest", p, <<c, d>>)} ELSE {})
                     \cup (IF ~TimeOK(e, c, k, t, t2)
                           THEN {WF("time.band", p, <<c, d, t, t2, TimeLo(e, c, k), TimeHi(e, c, k)>>)}
                           ELSE {})
             ELSE {})

VarClauses(e, p, w, from) ==
  UNION { IF v \notin DOMAIN w.vars THEN {WF("vars.missing", p, v)}
          ELSE UNION { LET c == <<w.x[p][j], w.y[p][j]>>
                       IN IF Inside(e, c) /\ ~VarOK(e, v, c, w.vars[v][p][j])
                          THEN {WF("vars.value", p, <<v, c, w.vars[v][p][j]>>)}
                          ELSE {}
                     : j \in from .. Len(w.x[p]) }
        : v \in Tracked(e) }

Aligned(w, p) ==
  /\ Len(w.y[p]) = Len(w.x[p]) /\ Len(w.t[p]) = Len(w.x[p])
  /\ \A v \in DOMAIN w.vars : Len(w.vars[v]) >= p /\ Len(w.vars[v][p]) = Len(w.x[p])
Sizes(w) == /\ Len(w.y) = Len(w.x) /\ Len(w.t) = Len(w.x)
            /\ \A v \in DOMAIN w.vars : Len(w.vars[v]) = Len(w.x)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* nothing already recorded changes; tracked variables that were not         *)
(* recorded so far are filled with NONE                                      *)
KeptAs(e, o, p, w, q) ==
  /\ IsPrefixOf(o.x[p], w.x[q])
  /\ IsPrefixOf(o.y[p], w.y[q])
  /\ IsPrefixOf(o.t[p], w.t[q])
KeptVars(e, o, p, w, q) ==
  \A v \in Tracked(e) :
      v \in DOMAIN w.vars =>
        IF v \in DOMAIN o.vars THEN IsPrefixOf(o.vars[v][p], w.vars[v][q])
        ELSE \A j \in 1 .. Len(o.x[p]) : w.vars[v][q][j] = NONE

Advance(e, o, w, p) ==
  UNION { StepClauses(e, p, <<w.x[p][j - 1], w.y[p][j - 1]>>,
                      <<w.x[p][j], w.y[p][j]>>, w.t[p][j - 1], w.t[p][j])
        : j \in (Len(o.x[p]) + 1) .. Len(w.x[p]) }
  \cup VarClauses(e, p, w, Len(o.x[p]) + 1)

Loc(w, p) == <<w.x[p][Len(w.x[p])], w.y[p][Len(w.y[p])]>>
MustMove(e, c) == Inside(e, c) /\ ~Frozen(e, c) /\ Stay \notin MoveSet(e, c)

Common(e, o, w) ==
  IF IsNone(w) THEN {WF("hist.lost", 0, "no walk data")}
  ELSE IF NP(w) # NP(o) \/ ~Sizes(w)
  THEN {WF("hist.count", 0, <<NP(o), NP(w)>>)}
  ELSE UNION { IF ~Aligned(w, p) THEN {WF("hist.aligned", p, Len(w.x[p]))}
               ELSE IF ~KeptAs(e, o, p, w, p) THEN {WF("hist.append", p, "changed")}
               ELSE IF ~KeptVars(e, o, p, w, p) THEN {WF("vars.pad", p, "changed")}
               ELSE Advance(e, o, w, p)
             : p \in 1 .. NP(o) }
Sound(o, w, p) == Aligned(w, p) /\ IsPrefixOf(o.x[p], w.x[p])

(* a walk without a past: every entry is judged, the first as a start        *)
WholeWalk(e, w, p) ==
  UNION { StepClauses(e, p, <<w.x[p][j - 1], w.y[p][j - 1]>>,
                      <<w.x[p][j], w.y[p][j]>>, w.t[p][j - 1], w.t[p][j])
        : j \in 2 .. Len(w.x[p]) }
  \cup VarClauses(e, p, w, 1)

(* a particle with fewer entries than iterations was held up somewhere       *)
CanHold(e, c) == Inside(e, c) => (Frozen(e, c) \/ Stay \in MoveSet(e, c))
FullLength(e, w, p, iters) ==
  IF Len(w.x[p]) > iters + 1 THEN {WF("iters.many", p, Len(w.x[p]))}
  ELSE IF Len(w.x[p]) < iters + 1
          /\ \A j \in 1 .. Len(w.x[p]) : ~CanHold(e, <<w.x[p][j], w.y[p][j]>>)
  THEN {WF("iters.few", p, Len(w.x[p]))}
  ELSE {}
=============================================================================
