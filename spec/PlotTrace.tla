----------------------------- MODULE PlotTrace -----------------------------
(* Judges the artists recorded from dorado's plotting functions.             *)
EXTENDS Plots, Records

CurveFails(r) ==
  LET end == EndOf(r.w, r.uniform)
  IN IF r.err # "" THEN {F("etd.error", r.err)}
     ELSE When(~r.same, "etd.input", "inputs were changed")
       \cup UNION { When(~Spans(r.frames[i].x, end) \/ (r.frames[i].cumulative /\ ~Spans(r.frames[i].y, 1000)),
                         "etd.axes", r.frames[i])
                    \cup When(r.frames[i].unit # (IF r.named = "" THEN <<>> ELSE <<r.named>>),
                              "etd.unit", <<r.frames[i].unit, r.named>>) : i \in DOMAIN r.frames }
       \cup When(r.saved # r.wantsaved, "etd.saved", r.saved)
       \cup UNION { When(IF r.curves[i].exact THEN ~ExactCurve(r.curves[i], r.ex, end)
                         ELSE ~BinnedCurve(r.curves[i], r.ex, end, r.nbins),
                         IF r.curves[i].exact THEN "etd.exact" ELSE "etd.binned",
                         <<r.curves[i], r.ex, end>>) : i \in DOMAIN r.curves }
       \cup When(r.thresholds /\ ~({500, 750, 900} \subseteq {r.hlines[i] : i \in DOMAIN r.hlines}),
                 "etd.levels", r.hlines)
       \cup UNION { When(~SlopeCurve(r.slopes[i], r.ex, end, r.nbins), "etd.slope",
                         <<r.slopes[i], r.ex, end>>) : i \in DOMAIN r.slopes }
       \cup When(r.fn = "plain" /\ r.slopes = <<>>, "etd.slope", "no differential curve")
       \cup When((r.thresholds \/ r.show) /\ {r.told[i][1] : i \in DOMAIN r.told} # {50, 75, 90},
                 "etd.report", r.told)
       \cup UNION { When(IF r.thresholds
                         THEN ~ReportedBinned(r.told[i], r.ex, end, r.nbins, r.unit)
                         ELSE ~ReportedExact(r.told[i], r.ex, end),
                         "etd.report", <<r.told[i], r.ex, end>>) : i \in DOMAIN r.told }

Colour(c) == CASE c = "r" -> <<1000, 0, 0>> [] c = "g" -> <<0, 500, 0>>
               [] c = "k" -> <<0, 0, 0>> [] OTHER -> <<0, 0, 1000>>
StateFails(r) ==
  IF r.err # "" THEN {F("plot.error", r.err)}
  ELSE LET want == IF r.bytime THEN SpotsAtTime(r.w, r.T) ELSE SpotsAt(r.w, r.it)
       IN When(~\E i \in DOMAIN r.sets : r.sets[i] = want, "plot.positions", <<r.sets, want>>)
          \cup When(~r.same, "plot.input", "walk data were changed")
          \cup When(~Underlaid(r.pics, r.grid), "plot.grid", r.pics)
          \cup When(~r.onto, "plot.axes", "not in the axes in use")
          \cup When(~\E i \in DOMAIN r.sets : r.sets[i] = want /\ r.rgb[i] = Colour(r.c), "plot.colour", r.rgb)

(* an empty request draws nothing                                            *)
PathFails(r) ==
  IF r.err # "" THEN {F("path.error", r.err)}
  ELSE LET want == [i \in DOMAIN r.ids |-> PathOf(r.w, r.ids[i] + 1, r.every)]
       IN When(~\E i \in DOMAIN r.paths : r.paths[i] = want, "path.cells", <<r.paths, want>>)
          \cup When(~r.same, "path.input", "walk data were changed")
          \cup When(~r.file, "path.file", "no figure written")
          \cup When(~Underlaid(r.pics, r.grid), "path.grid", r.pics)
          \cup When([i \in DOMAIN r.key |-> r.key[i].text]
                    # (IF r.legend THEN [i \in DOMAIN r.ids |-> ToString(r.ids[i])] ELSE <<>>)
                    \/ (r.legend /\ Len(r.colours) = Len(r.ids)
                        /\ \E i \in DOMAIN r.key : r.key[i].rgb # r.colours[i]), "path.legend", r.key)

(* tails: every pair of positions that belongs to the figure is there, in    *)
(* the colour of its age, and nothing else but the first step of a walk      *)
TailFails(r, ii, pairs) ==
  LET alive == {p \in 1 .. NPart(r.w) : LenOf(r.w, p) >= ii}
      ages == Ages(ii, r.every, r.tail)
      got == {<<pairs[i].a, pairs[i].b>> : i \in DOMAIN pairs}
      first == {<<Spot(r.w, p, 1), Spot(r.w, p, 2)>> : p \in {q \in alive : LenOf(r.w, q) >= 2}}
      all == {PairAt(r.w, p, ii, r.every, k) : p \in alive, k \in ages}
  IN UNION { LET want == PairAt(r.w, p, ii, r.every, k)
             IN When(~\E i \in DOMAIN pairs :
                        /\ <<pairs[i].a, pairs[i].b>> = want
                        /\ SameColour(pairs[i].rgba, Fade(r.from, r.to, r.tail, k)),
                     "snake.tail", <<ii, p, k, want>>)
           : p \in alive, k \in ages }
     \cup When(~(got \subseteq (all \cup first)), "snake.tail", <<ii, got>>)

SnakeFails(r) ==
  IF r.err # "" THEN {F("snake.error", r.err)}
  ELSE LET steps == SnakeSteps(r.w, r.every, r.steps)
           want == {"snakefig" \o ToString(ii) \o ".png" : ii \in steps}
       IN When({r.figs[i].name : i \in DOMAIN r.figs} # want
               \/ {r.files[i] : i \in DOMAIN r.files} # want, "snake.files", <<r.files, want>>)
          \cup When(~r.same, "snake.input", "walk data were changed")
          \cup When(~r.used, "snake.files", "another file in the folder is gone")
          \cup UNION { When(~Underlaid(r.figs[i].pics, r.grid), "snake.grid", i) : i \in DOMAIN r.figs }
          \cup UNION { IF r.figs[i].name = "snakefig" \o ToString(ii) \o ".png"
                       THEN TailFails(r, ii, r.figs[i].tails) ELSE {} : ii \in steps, i \in DOMAIN r.figs }
          \cup UNION { UNION { When(/\ r.figs[i].name = "snakefig" \o ToString(ii) \o ".png"
                                    /\ \E s \in DOMAIN r.figs[i].segs :
                                         ~\E p \in 1 .. NPart(r.w) : TailOf(r.w, p, ii, r.figs[i].segs[s]),
                                    "snake.positions", <<ii, r.figs[i].segs>>)
                       \cup When(/\ r.figs[i].name = "snakefig" \o ToString(ii) \o ".png"
                                 /\ \E p \in 1 .. NPart(r.w) : LenOf(r.w, p) >= ii
                                      /\ ~\E s \in DOMAIN r.figs[i].segs :
                                            TailOf(r.w, p, ii, r.figs[i].segs[s]),
                                 "snake.missing", ii)
                             : ii \in steps } : i \in DOMAIN r.figs }

MarkFails(r) ==
  IF r.err # "" THEN {F("mark.error", r.err)}
  ELSE When(r.show /\ ~\E i \in DOMAIN r.sets : r.sets[i] = <<Spot(r.w, 1, 1)>>,
            "mark.seed", <<r.sets, Spot(r.w, 1, 1)>>)
       \cup When(~r.show /\ r.sets # <<>>, "mark.unasked", r.sets)
       \cup When(~r.same, "mark.input", "inputs were changed")

PlotVerdict(r) ==
  CASE r.kind = "etd" -> CurveFails(r)
    [] r.kind = "state" -> StateFails(r)
    [] r.kind = "path" -> PathFails(r)
    [] r.kind = "snake" -> SnakeFails(r)
    [] r.kind = "mark" -> MarkFails(r)
=============================================================================
