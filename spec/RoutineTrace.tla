---------------------------- MODULE RoutineTrace ----------------------------
(* Judges recorded calls of steady_plots, time_plots and unsteady_plots:     *)
(* the walk returned, the figures and the data file written, and a walk      *)
(* resumed from that file.                                                   *)
EXTENDS Unsteady, Records

Own(S) == {F(f.clause, <<f.p, f.info>>) : f \in S}

Wellformed(w) == ~IsNone(w) /\ Sizes(w)
                 /\ \A p \in 1 .. NP(w) : Aligned(w, p) /\ Len(w.x[p]) > 0
Extends(a, b) == /\ NP(a) = NP(b)
                 /\ \A p \in 1 .. NP(a) : /\ IsPrefixOf(a.x[p], b.x[p])
                                          /\ IsPrefixOf(a.y[p], b.y[p])
                                          /\ IsPrefixOf(a.t[p], b.t[p])
                                          /\ \A v \in DOMAIN a.vars :
                                               v \in DOMAIN b.vars
                                               /\ IsPrefixOf(a.vars[v][p], b.vars[v][p])

FileName(i) == "output" \o ToString(i) \o ".png"
FigFails(r, shown) ==
  LET want == {FileName(i) : i \in 0 .. (r.n - 1)}
      got == {r.figs[i].name : i \in DOMAIN r.figs}
  IN When(got # want, "routine.figures", <<got, r.n>>)
     \cup When(SeqSet(r.files) # want, "routine.files", r.files)
     \cup UNION { When(/\ r.figs[j].name = FileName(i - 1)
                       /\ shown[i] \notin SeqSet(r.figs[j].sets), "routine.shown", <<i, shown[i]>>)
                : i \in DOMAIN shown, j \in DOMAIN r.figs }

(* the depths of the domain, every value in its own cell                     *)
ShowsDepth(e, fig) == \E i \in DOMAIN fig.pics :
  LET g == fig.pics[i].data
  IN /\ fig.pics[i].up /\ Len(g) = e.L
     /\ \A a \in 1 .. e.L : Len(g[a]) = e.W /\ \A b \in 1 .. e.W :
          LET d == Depth(e, <<a - 1, b - 1>>) IN g[a][b] = d \/ (g[a][b] = NAN /\ d = 0)
(* columns across, rows down                                                 *)
Spots(w, n) == [p \in 1 .. NP(w) |-> LET m == Min2(n, Len(w.x[p])) IN <<w.y[p][m], w.x[p][m]>>]
Heads(w) == [p \in 1 .. NP(w) |-> <<Loc(w, p)[2], Loc(w, p)[1]>>]

(* marks coloured by the travel times so far                                 *)
Timed(w, v) == Len(v) = NP(w) /\ \A p \in 1 .. NP(w) : Abs(v[p] - w.t[p][Len(w.t[p])]) <= 1
SteadyFails(r) ==
  IF r.err # "" THEN {F("routine.error", r.err)}
  ELSE IF ~Wellformed(r.w) THEN {F("routine.aligned", "")}
  ELSE When(~Extends(r.start, r.w), "routine.lost", "start of the walk changed")
    \cup When(r.w # r.plain[Len(r.plain)], "routine.walk", "not what plain iterations produce")
    \cup When(~r.stored, "routine.stored", "object and returned walk differ")
    \cup UNION { Own(FullLength(r.e, r.w, p, r.n + Len(r.start.x[p]) - 1)) : p \in 1 .. NP(r.w) }
    \cup UNION { Own(Advance(r.e, r.start, r.w, p)) : p \in 1 .. NP(r.w) }
    \cup (IF ~r.save THEN When(r.figs # <<>> \/ r.files # <<>> \/ r.datafile, "routine.unasked", "")
          ELSE FigFails(r, [i \in 1 .. r.n |-> Heads(r.plain[i])])
               \cup UNION { When(~ShowsDepth(r.e, r.figs[j]), "routine.depth", r.figs[j].name)
                            \cup When(r.kind = "time" /\ \E i \in 1 .. r.n :
                                  /\ r.figs[j].name = FileName(i - 1)
                                  /\ ~\E s \in DOMAIN r.figs[j].sets :
                                        /\ r.figs[j].sets[s] = Heads(r.plain[i])
                                        /\ Timed(r.plain[i], r.figs[j].vals[s]),
                                  "routine.times", r.figs[j])
                          : j \in DOMAIN r.figs }
               \cup When(r.data # r.w \/ ~r.exact, "routine.data", "file differs from the walk"))
    \cup (IF r.more = 0 THEN {}
          ELSE IF r.rerr # "" THEN {F("resume.error", r.rerr)}
          ELSE IF ~Wellformed(r.resumed) THEN {F("resume.aligned", "")}
          ELSE When(~Extends(r.w, r.resumed), "resume.lost", "")
            \cup UNION { Own(FullLength(r.e, r.resumed, p, r.n + r.more + Len(r.start.x[p]) - 1))
                         \cup Own(Advance(r.e, r.w, r.resumed, p)) : p \in 1 .. NP(r.resumed) })

UnsteadyFails(r) ==
  IF r.err # "" THEN {F("routine.error", r.err)}
  ELSE IF ~Wellformed(r.w) THEN {F("routine.aligned", "")}
  ELSE When(NP(r.w) # r.np, "unsteady.count", NP(r.w))
    \cup UNION { When(r.w.x[p][1] \notin SeqSet(r.xs) \/ r.w.y[p][1] \notin SeqSet(r.ys)
                      \/ r.w.t[p][1] # 0, "unsteady.start", p) : p \in 1 .. NP(r.w) }
    \cup UNION { When(~AcceptsWalk(r.es, r.ts, r.w, p), "unsteady.walk",
                      <<p, Explained(r.es, r.ts, r.w, p), r.w.x[p], r.w.y[p], r.w.t[p]>>)
               : p \in 1 .. NP(r.w) }
    \* more time steps asked for than there are files
    \cup When(r.warned # (r.asked > r.n), "unsteady.warning", <<r.asked, r.n>>)
    \cup FigFails(r, <<>>)
    \cup UNION { When(r.figs[j].name = FileName(i - 1) /\ ~ShowsDepth(r.es[i], r.figs[j]), "routine.depth",
                      <<i, r.figs[j].pics>>) : i \in 1 .. r.n, j \in DOMAIN r.figs }
    \cup UNION { LET ok(s) == Len(s) = NP(r.w) /\ \A p \in 1 .. NP(r.w) :
                        \E m \in 1 .. Len(r.w.x[p]) : s[p] = <<r.w.y[p][m], r.w.x[p][m]>>
                             /\ (r.figs[j].name = FileName(r.n - 1) => s[p] = Heads(r.w)[p])
                 IN When(~\E s \in SeqSet(r.figs[j].sets) : ok(s), "routine.shown", r.figs[j].name)
               : j \in DOMAIN r.figs }
    \cup When(r.data # r.w \/ ~r.exact, "routine.data", "file differs from the walk")

RoutineVerdict(r) ==
  CASE r.kind \in {"steady", "time"} -> SteadyFails(r)
    [] r.kind = "unsteady" -> UnsteadyFails(r)
    [] r.kind = "refuse" -> When(r.err # "ValueError", "unsteady.type", r.err)
=============================================================================
