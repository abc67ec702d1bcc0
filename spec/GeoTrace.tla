------------------------------ MODULE GeoTrace ------------------------------
(* Judges recorded calls of coord2ind, ind2coord, flux_proportional_seeding, *)
(* unstruct2grid, compute_thresholds and median_absolute_deviation_filter.   *)
EXTENDS Geo, Records

ToIndex(r) ==
  IF r.err # "" THEN {F("coord.error", r.err)}
  ELSE IF Len(r.out) # Len(r.pts) THEN {F("coord.count", Len(r.out))}
  ELSE UNION { When(~Belongs(r.out[i], r.pts[i][1], r.pts[i][2], r.xo, r.yo, r.cs, r.L),
                    "coord.index", <<r.pts[i], r.out[i]>>)
             : i \in DOMAIN r.pts }
ToCoord(r) ==
  IF r.err # "" THEN {F("coord.error", r.err)}
  ELSE When(~r.kept, "coord.kept", "the recorded walk was changed")
   \cup (IF Len(r.cx) # Len(r.w.x) \/ Len(r.cy) # Len(r.w.x) THEN {F("coord.count", Len(r.cx))}
    ELSE UNION { IF Len(r.cx[p]) # Len(r.w.x[p]) \/ Len(r.cy[p]) # Len(r.w.x[p])
                 THEN {F("coord.count", p)}
                 ELSE UNION { LET c == <<r.w.x[p][j], r.w.y[p][j]>>
                              IN When(Abs(r.cx[p][j] - XOf(c, r.xo, r.cs)) > 1
                                      \/ Abs(r.cy[p][j] - YOf(c, r.yo, r.cs, r.L)) > 1,
                                      "coord.value", <<p, j, r.cx[p][j], r.cy[p][j]>>)
                                 \cup When(r.back[p][j] # c, "coord.roundtrip",
                                           <<p, j, c, r.back[p][j]>>)
                            : j \in DOMAIN r.w.x[p] }
               : p \in DOMAIN r.w.x })

FluxFails(r) ==
  IF r.refuse THEN When(r.err # "ValueError", "flux.refuse", r.err)
  ELSE IF r.err # "" THEN {F("flux.error", r.err)}
  ELSE When(~r.whole, "flux.whole", r.out)
    \cup When(~r.same, "flux.input", "discharges were modified")
    \cup When(~FairCounts(r.q, r.n, r.out), "flux.share", <<r.q, r.n, r.out>>)

----------------------------------------------------------------------------
Raster(r) == LET nr == NRows(r.pts, r.cs)
                 nc == NCols(r.pts, r.cs)
  IN [nr |-> nr, nc |-> nc]
Within(r, i, j) == r.poly = <<>>
  \/ InPolygon(r.poly, 2 * GridX(r.pts, r.cs, j), 2 * GridY(r.pts, r.cs, i))
CellFails(r, q, i, j, v) ==
  LET x == GridX(r.pts, r.cs, j)
      y == GridY(r.pts, r.cs, i)
  IN IF ~Within(r, i, j) THEN When(v # NAN, "grid.outside", <<i, j, v>>)
     ELSE IF r.k = 1
     THEN When(\A a \in NearestValues(r.pts, q, x, y) : Abs(v - 1000 * a) > 1, "grid.nearest",
               <<i, j, v>>)
     ELSE LET b == IdwRange(r.pts, q, r.k, x, y)
              tol == 3 + MaxOf({q[a] : a \in DOMAIN q})
          IN When(v < b[1] - tol \/ v > b[2] + tol, "grid.idw", <<i, j, v, b>>)
OneRaster(r, q, out) ==
  LET z == Raster(r)
      crop == r.poly # <<>> /\ r.crop
      R == {i \in 0 .. (z.nr - 1) : ~crop \/ \E j \in 0 .. (z.nc - 1) : Within(r, i, j)}
      C == {j \in 0 .. (z.nc - 1) : ~crop \/ \E i \in 0 .. (z.nr - 1) : Within(r, i, j)}
      rr == SetToSortSeq(R, LAMBDA a, b : a < b)
      cc == SetToSortSeq(C, LAMBDA a, b : a < b)
  IN IF Len(out) # Len(rr) \/ \E i \in DOMAIN out : Len(out[i]) # Len(cc)
     THEN {F("grid.shape", <<Len(out), Len(rr), Len(cc)>>)}
     ELSE UNION { CellFails(r, q, rr[i], cc[j], out[i][j]) : i \in DOMAIN rr, j \in DOMAIN cc }
GridFails(r) ==
  IF r.refuse THEN When(r.err # "ValueError", "grid.refuse", r.err)
  ELSE IF r.err # "" THEN {F("grid.error", r.err)}
  ELSE UNION { OneRaster(r, r.qs[i], r.outs[i]) : i \in DOMAIN r.qs }

----------------------------------------------------------------------------
(* thresholds: data per chunk (NAN list marker: chunk without data), T in    *)
(* 1/1000 of the data unit after multiplication with the time unit           *)
Fractions == <<5000, 7500, 9000>>
RawFails(r) ==
  UNION { LET s == r.data[c]
              u == Usable(s)
              i == ((c - 1) \div r.W) + 1
              j == ((c - 1) % r.W) + 1
              T == [a \in 1 .. 3 |-> r.raw[a][i][j]]
          IN IF Distinct(u) < 5
             THEN When(\E a \in 1 .. 3 : T[a] # NAN, "threshold.undefined", <<c, T>>)
             ELSE IF \E a \in 1 .. 3 : T[a] = NAN THEN {F("threshold.missing", <<c, T>>)}
             ELSE LET lo == MinOf({u[a] : a \in DOMAIN u})
                      hi == MaxOf({u[a] : a \in DOMAIN u})
                  IN When(T[1] > T[2] + 2 \/ T[2] > T[3] + 2, "threshold.order", <<c, T>>)
                     \cup When(\E a \in 1 .. 3 : T[a] < 1000 * lo - 2 \/ T[a] > 1000 * hi + 2,
                               "threshold.range", <<c, T>>)
                     \cup UNION { IF T[a] >= 1000 * lo - 2 /\ T[a] <= 1000 * hi + 2
                                  THEN LET m == MassBelow(u, T[a])
                                       IN When(Abs(m - Fractions[a]) > 60,
                                               "threshold.value", <<c, a, T[a], m>>)
                                  ELSE {}
                                : a \in 1 .. 3 }
        : c \in DOMAIN r.data }
(* the filter applied to the raw thresholds of the same call                 *)
SmoothFails(r) ==
  UNION { LET g == r.raw[a]
              o == r.smooth[a]
          IN UNION { LET w == Window(g, i, j, r.size)
                         clear == KeptIn(w, r.thr, -900) = KeptIn(w, r.thr, 900)
                     IN IF g[i][j] = NAN
                        THEN When(o[i][j] # NAN, "filter.undefined", <<a, i, j>>)
                        ELSE IF Abs(Mad4(w)) > 8 /\ clear
                        THEN When(o[i][j] = NAN \/
                                  Abs(o[i][j] - (Filtered1000(g, i, j, r.size, r.thr) \div 1000)) > 3,
                                  "filter.value", <<a, i, j, o[i][j]>>)
                        ELSE {}
                   : i \in 1 .. r.L, j \in 1 .. r.W }
        : a \in 1 .. 3 }
Shaped(g, L, W) == Len(g) = L /\ \A i \in 1 .. L : Len(g[i]) = W
ThresholdFails(r) ==
  IF r.err # "" THEN {F("threshold.error", r.err)}
  ELSE IF \E a \in 1 .. 3 : ~Shaped(r.raw[a], r.L, r.W) \/ ~Shaped(r.smooth[a], r.L, r.W)
  THEN {F("threshold.shape", <<r.L, r.W>>)}
  ELSE RawFails(r) \cup SmoothFails(r)
    \cup When(~r.same, "threshold.input", "exposure data were modified")
MadFails(r) ==
  IF r.err # "" THEN {F("filter.error", r.err)}
  ELSE IF ~Shaped(r.out, Len(r.g), Len(r.g[1])) THEN {F("filter.shape", "")}
  ELSE When(~r.same, "filter.input", "data were modified") \cup
    UNION { LET want == Filtered1000(r.g, i, j, r.size, r.thr)
            IN When(IF want = NAN THEN r.out[i][j] # NAN
                    ELSE r.out[i][j] = NAN \/ Abs(r.out[i][j] - want) > 1,
                    "filter.value", <<i, j, r.out[i][j], want>>)
          : i \in 1 .. Len(r.g), j \in 1 .. Len(r.g[1]) }

GeoVerdict(r) ==
  CASE r.kind = "c2i" -> ToIndex(r)
    [] r.kind = "i2c" -> ToCoord(r)
    [] r.kind = "flux" -> FluxFails(r)
    [] r.kind = "grid" -> GridFails(r)
    [] r.kind = "threshold" -> ThresholdFails(r)
    [] r.kind = "mad" -> MadFails(r)
=============================================================================
