---------------------------- MODULE ExampleTrace ----------------------------
(* Judges the shipped example domains and walks through them.                *)
EXTENDS Examples, Records

(* the domain a user gets is the one in the data file                        *)
Agree(a, f(_), e) ==
  /\ Len(a) = e.L /\ \A i \in DOMAIN a : Len(a[i]) = e.W
  /\ \A c \in Cells(e) : LET want == f(c) IN IF want = NAN THEN At(a, c) = NAN
                                             ELSE At(a, c) # NAN /\ Abs(At(a, c) - want) <= 2
DomainFails(e, d) ==
  When(~Agree(d.depth, LAMBDA c : Depth(e, c), e), "example.domain", "depth")
  \cup When(~Agree(d.stage, LAMBDA c : Stage(e, c), e), "example.domain", "stage")
  \cup When(~Agree(d.qx, LAMBDA c : QDown(e, c), e), "example.domain", "qx")
  \cup When(~Agree(d.qy, LAMBDA c : QRight(e, c), e), "example.domain", "qy")

SettingsFails(r) ==
  When(r.got # r.want, "example.settings", <<r.got, r.want>>)

SeedFails(r, w) ==
  When(Len(w.x) # r.n, "example.seed", <<Len(w.x), r.n>>)
  \cup UNION { When(\/ w.x[p][1] \notin {r.rows[i] : i \in DOMAIN r.rows}
                    \/ w.y[p][1] \notin {r.cols[i] : i \in DOMAIN r.cols}
                    \/ w.t[p][1] # 0, "example.seed", <<w.x[p][1], w.y[p][1], w.t[p][1]>>) : p \in DOMAIN w.x }

Spot(w, p, j) == <<w.x[p][j], w.y[p][j]>>
StepsFails(e, r, w, p) ==
  UNION { LET c == Spot(w, p, j)  d == Spot(w, p, j + 1)
          IN IF ~Inside(e, d) \/ ~(Adjacent(c, d) \/ c = d) THEN {F("example.step", <<c, d>>)}
             ELSE When(d \notin TLCEval(Allowed(e, c, r.tol)) \/ Frozen(e, c), "example.step", <<c, d>>)
               \cup When(w.t[p][j + 1] < w.t[p][j], "example.time", <<w.t[p][j], w.t[p][j + 1]>>)
               \cup When(d # c /\ w.t[p][j + 1] < HUGE /\ ~DurationOK(e, c, DirOf(c, d), w.t[p][j + 1] - w.t[p][j]),
                         "example.time", <<c, d, w.t[p][j + 1] - w.t[p][j]>>)
        : j \in 1 .. (Len(w.x[p]) - 1) }
Stuck(e, r, w, p) == LET c == Spot(w, p, Len(w.x[p])) IN c \notin TLCEval(Allowed(e, c, r.tol))
(* a run of n iterations, or to the target time n [ms]                       *)
RunFails(e, r, w) ==
  UNION { LET m == Len(w.x[p]) - 1
          IN IF Len(w.y[p]) # m + 1 \/ Len(w.t[p]) # m + 1 THEN {F("example.step", <<p, m>>)}
             ELSE IF ~Inside(e, Spot(w, p, 1)) THEN {F("example.seed", Spot(w, p, 1))}
             ELSE StepsFails(e, r, w, p) \cup
                  (IF r.mode = "iterations"
                   THEN When(m > r.goal \/ (m < r.goal /\ Stuck(e, r, w, p)), "example.steps", <<p, m>>)
                   ELSE When(\E j \in 1 .. m : ~MayContinue(w.t[p], j, r.goal), "example.target", w.t[p])
                        \cup When(MustContinue(w.t[p], m + 1, r.goal) /\ Stuck(e, r, w, p),
                                  "example.target", <<p, w.t[p]>>))
        : p \in DOMAIN w.x }

ExampleVerdict(r) ==
  IF r.err # "" THEN {F("example.error", r.err)}
  ELSE SettingsFails(r) \cup DomainFails(r.e, r.dom)
       \cup UNION { SeedFails(r, r.runs[i]) \cup RunFails(r.e, r, r.runs[i]) : i \in DOMAIN r.runs }
=============================================================================
