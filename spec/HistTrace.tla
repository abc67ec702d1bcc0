----------------------------- MODULE HistTrace -----------------------------
(* Judges recorded calls of the post processing functions of the real code   *)
(* (exposure_time, get_state, get_time_state, nourishment_area and _time,    *)
(* systemwide, localized) against Histories.                                 *)
EXTENDS Histories, Records

Near(a, b, tol) == a # NAN /\ b # NAN /\ Abs(a - b) <= tol
SameShape(g, L, W) == Len(g) = L /\ \A i \in 1 .. L : Len(g[i]) = W

ExposureFails(r) ==
  IF r.err # "" THEN {F("exposure.error", r.err)}
  ELSE When(~r.same, "exposure.input", "walk data or region were modified")
    \cup (IF Len(r.out) # NPart(r.w) THEN {F("exposure.count", Len(r.out))}
          ELSE UNION { When(Abs(r.out[p] - Exposure2(r.w, p, r.roi)) > 1, "exposure.value",
                            <<p, r.out[p], Exposure2(r.w, p, r.roi)>>)
                     : p \in 1 .. NPart(r.w) })
    \cup When(UNION {{r.told[i][j] : j \in DOMAIN r.told[i]} : i \in DOMAIN r.told}
              # {p - 1 : p \in StillIn(r.w, r.roi)},
              "exposure.report", <<r.told, StillIn(r.w, r.roi)>>)

(* a query returns positions, times and (only if there are any) the tracked  *)
(* values of entry J(p) of every particle                                    *)
QueryFails(r, J(_), tag) ==
  LET w == r.w
      o == r.out
      n == NPart(w)
  IN IF r.err # "" THEN {F(tag \o ".error", r.err)}
     ELSE When(~r.same, tag \o ".input", "walk data were modified")
       \cup When(r.parts # (IF DOMAIN w.vars = {} THEN 3 ELSE 4), tag \o ".parts", r.parts)
       \cup (IF Len(o.x) # n \/ Len(o.y) # n \/ Len(o.t) # n
                \/ DOMAIN o.vars # DOMAIN w.vars
                \/ \E v \in DOMAIN w.vars : Len(o.vars[v]) # n
             THEN {F(tag \o ".count", n)}
             ELSE UNION {
               When(o.x[p] # w.x[p][J(p)] \/ o.y[p] # w.y[p][J(p)], tag \o ".position",
                    <<p, o.x[p], o.y[p], J(p)>>)
               \cup When(o.t[p] # w.t[p][J(p)], tag \o ".time", <<p, o.t[p], J(p)>>)
               \cup When(\E v \in DOMAIN w.vars : o.vars[v][p] # w.vars[v][p][J(p)],
                         tag \o ".tracked", p)
               : p \in 1 .. n })
StateFails(r) ==
  QueryFails(r, LAMBDA p : EntryAt(r.w, p, r.it), "state")
  \cup (LET n == Cardinality(Lacking(r.w, r.it))
        IN When(r.told # (IF n = 0 THEN <<>> ELSE <<<<n, r.it>>>>), "state.report", <<r.told, n>>))
TimeFails(r) ==
  QueryFails(r, LAMBDA p : EntryAtTime(r.w, p, r.T), "timestate")
  \cup When({r.told[i] : i \in DOMAIN r.told} # {<<p - 1>> : p \in Behind(r.w, r.T)},
            "timestate.report", <<r.told, Behind(r.w, r.T)>>)

----------------------------------------------------------------------------
(* value * 10^6 / top of a clipped count                                     *)
AreaPlain(r) ==
  LET g == Clipped1000(VisitGrid(r.w, r.L, r.W), r.pc)
      top == MaxOf({g[i][j] : i \in 1 .. r.L, j \in 1 .. r.W})
  IN UNION { LET v == g[i][j]
                 o == r.out[i][j]
             IN IF v = 0 THEN When(o # NAN, "nourish.undefined", <<i, j, o>>)
                ELSE When(~Near(o, ScaledDiv(v, top, 6), 3), "nourish.area",
                          <<i, j, o, v, top>>)
           : i \in 1 .. r.L, j \in 1 .. r.W }
TimePlain(r) ==
  LET g == Clipped1000(MeanGrid(r.w, r.L, r.W), r.pc)
  IN UNION { LET v == g[i][j] \div 1000
                 o == r.out[i][j]
             IN IF InnerVisits(r.w, <<i - 1, j - 1>>) = 0
                THEN When(o # NAN, "nourish.undefined", <<i, j, o>>)
                ELSE When(~(Near(o, v, 2) \/ (o = NAN /\ v = 0)), "nourish.time",
                          <<i, j, o, v>>)
           : i \in 1 .. r.L, j \in 1 .. r.W }

(* smoothed maps: both are scaled so that the largest input is 20000         *)
Smoothed(r, g) ==
  LET top == MaxOf({g[i][j] : i \in 1 .. r.L, j \in 1 .. r.W})
      h == TLCEval([i \in DOMAIN g |-> [j \in DOMAIN g[i] |->
              IF top = 0 THEN 0 ELSE 2 * Frac(g[i][j], top)]])
  IN [s |-> Smooth2(h, r.s10), top |-> top]
SmoothFails(r, g, tag) ==
  LET z == TLCEval(Smoothed(r, g))
      all == {z.s[i][j] : i \in 1 .. r.L, j \in 1 .. r.W}
      lo == MinOf(all)
      hi == MaxOf(all)
      val(i, j) == IF tag = "nourish.area" THEN ScaledDiv(z.s[i][j], hi, 6)
                   ELSE ((z.top \div 1000) * z.s[i][j]) \div 20000
      tol == IF tag = "nourish.area" THEN 5000000 \div hi
             ELSE 3 + (z.top \div 1000) \div 3000
  IN UNION { LET o == r.out[i][j]
             IN IF o = NAN THEN When(z.s[i][j] > lo + 4, tag, <<i, j, o, z.s[i][j], lo>>)
                ELSE When(z.s[i][j] < lo - 4 \/ Abs(o - val(i, j)) > tol, tag,
                          <<i, j, o, val(i, j)>>)
           : i \in 1 .. r.L, j \in 1 .. r.W }
     \cup When(hi > lo + 4 /\ \A i \in 1 .. r.L, j \in 1 .. r.W :
                  z.s[i][j] = lo => r.out[i][j] # NAN, tag, "no undefined cell")

NourishFails(r) ==
  IF r.err # "" THEN {F("nourish.error", r.err)}
  ELSE IF ~SameShape(r.out, r.L, r.W) THEN {F("nourish.shape", <<r.L, r.W>>)}
  ELSE When(~r.same, "nourish.input", "walk data were modified")
    \cup (IF r.kind = "area"
          THEN IF r.s10 = 0 THEN AreaPlain(r)
               ELSE SmoothFails(r, Clipped1000(VisitGrid(r.w, r.L, r.W), r.pc), "nourish.area")
          ELSE IF r.s10 = 0 THEN TimePlain(r)
               ELSE SmoothFails(r, Clipped1000(MeanGrid(r.w, r.L, r.W), r.pc), "nourish.time"))

----------------------------------------------------------------------------
(* chunks: out is a sequence of [nan, v] in row major order                  *)
StartsIn(w, p, r, rq) == InChunk(CellOf(w, p, 1), rq[1], rq[2], r.L, r.W, r.f)
(* the recorded defect: first row or column of the next chunk included       *)
StartsOnUpper(w, p, r, rq) ==
  /\ w.x[p][1] \in ChunkLo(rq[1], r.f) .. (ChunkHi(rq[1], r.L, r.f) + 1)
  /\ w.y[p][1] \in ChunkLo(rq[2], r.f) .. (ChunkHi(rq[2], r.W, r.f) + 1)
ExpectedFor(w, region, Sel(_)) ==
  LET P == SelectSeq([p \in 1 .. NPart(w) |-> p], Sel)
  IN [i \in DOMAIN P |-> Exposure2(w, P[i], region)]
Agrees(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 1

ChunkFails(r) ==
  LET w == r.w
      nr == ChunkCount(r.L, r.f)
      nq == ChunkCount(r.W, r.f)
      local == r.kind = "localized"
  IN IF r.err # "" THEN {F("chunk.error", r.err)}
     ELSE IF Len(r.out) # nr * nq THEN {F("chunk.count", <<Len(r.out), nr * nq>>)}
     ELSE When(~r.same, "chunk.input", "inputs were modified") \cup
       UNION { LET rq == <<i, j>>
                   o == r.out[(i - 1) * nq + j]
                   C == ChunkCells(i, j, r.L, r.W, r.f)
                   has == \E c \in C : GridAt(r.roi, c) = 1
                   region == [a \in 1 .. r.L |-> [b \in 1 .. r.W |->
                               IF r.roi[a][b] = 1 /\ (local => <<a - 1, b - 1>> \in C)
                               THEN 1 ELSE 0]]
                   want == ExpectedFor(w, region, LAMBDA p : StartsIn(w, p, r, rq))
                   upper == ExpectedFor(w, region, LAMBDA p : StartsOnUpper(w, p, r, rq))
               IN IF ~has THEN When(~o.nan, "chunk.undefined", rq)
                  ELSE IF o.nan THEN {F("chunk.missing", rq)}
                  ELSE IF Agrees(o.v, want) THEN {}
                  ELSE IF Agrees(o.v, upper) THEN {F("chunk.upperbound", rq)}
                  ELSE {F("chunk.exposure", <<rq, o.v, want>>)}
             : i \in 1 .. nr, j \in 1 .. nq }

HistVerdict(r) ==
  CASE r.kind = "exposure" -> ExposureFails(r)
    [] r.kind = "state" -> StateFails(r)
    [] r.kind = "timestate" -> TimeFails(r)
    [] r.kind \in {"area", "ntime"} -> NourishFails(r)
    [] r.kind \in {"systemwide", "localized"} -> ChunkFails(r)
=============================================================================
