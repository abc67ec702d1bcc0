----------------------------- MODULE Histories -----------------------------
(* Walk data (recorded histories of particles) and everything that is        *)
(* derived from them after a run: exposure times, states at an iteration or  *)
(* time, nourishment maps, assignment to spatial chunks.                     *)
(* A walk data value is [x, y, t, vars]: sequences (one per particle) of     *)
(* rows, columns, times [ms] and, per name, tracked values.                  *)
EXTENDS Num, TLC, SequencesExt

NPart(w) == Len(w.x)
LenOf(w, p) == Len(w.x[p])
CellOf(w, p, j) == <<w.x[p][j], w.y[p][j]>>
GridAt(g, c) == g[c[1] + 1][c[2] + 1]
RowsOf(g) == Len(g)
ColsOf(g) == IF Len(g) = 0 THEN 0 ELSE Len(g[1])

----------------------------------------------------------------------------
(* Exposure time, doubled so that half steps stay whole.                     *)
In(roi, c) == IF GridAt(roi, c) = 1 THEN 1 ELSE 0
StepExposure2(w, p, j, roi) ==
  (In(roi, CellOf(w, p, j - 1)) + In(roi, CellOf(w, p, j)))
  * (w.t[p][j] - w.t[p][j - 1])
RECURSIVE Exposure2To(_, _, _, _)
Exposure2To(w, p, j, roi) ==
  IF j <= 1 THEN 0
  ELSE Exposure2To(w, p, j - 1, roi) + StepExposure2(w, p, j, roi)
Exposure2(w, p, roi) == Exposure2To(w, p, LenOf(w, p), roi)
(* particles that have moved and are inside at the end of their record       *)
StillIn(w, roi) == {p \in 1 .. NPart(w) : LenOf(w, p) > 1 /\ In(roi, CellOf(w, p, LenOf(w, p))) = 1}
Total(w, p) == w.t[p][LenOf(w, p)] - w.t[p][1]

----------------------------------------------------------------------------
(* Index (1-based) of the entry a state query refers to.                     *)
EntryAt(w, p, it) ==
  LET n == LenOf(w, p)
  IN IF it >= 0 THEN IF it < n THEN it + 1 ELSE n
     ELSE IF -it <= n THEN n + it + 1 ELSE n
EntryAtTime(w, p, T) ==
  LET n == LenOf(w, p)
      best == MinOf({Abs(w.t[p][j] - T) : j \in 1 .. n})
  IN MinOf({j \in 1 .. n : Abs(w.t[p][j] - T) = best})
(* particles without an entry of that number; particles whose record ends    *)
(* before a time                                                             *)
Lacking(w, it) == {p \in 1 .. NPart(w) : it >= LenOf(w, p) \/ -it > LenOf(w, p)}
Behind(w, T) == {p \in 1 .. NPart(w) : w.t[p][LenOf(w, p)] < T}

----------------------------------------------------------------------------
(* Nourishment maps.  `pc` is a percentile in tenths of a percent.           *)
Visits(w, c) == SumSeq([p \in 1 .. NPart(w) |->
                  Cardinality({j \in 1 .. LenOf(w, p) : CellOf(w, p, j) = c})])
InnerVisits(w, c) == SumSeq([p \in 1 .. NPart(w) |->
                  Cardinality({j \in 2 .. (LenOf(w, p) - 1) : CellOf(w, p, j) = c})])
Occupied2(w, c) == SumSeq([p \in 1 .. NPart(w) |->
     LET n == LenOf(w, p)
     IN SumSeq([j \in 1 .. n |-> IF j > 1 /\ j < n /\ CellOf(w, p, j) = c
                                 THEN w.t[p][j + 1] - w.t[p][j - 1] ELSE 0])])

Flat(g) == FlattenSeq(g)
GridOf(L, W, Op(_)) ==
  TLCEval([i \in 1 .. L |-> [j \in 1 .. W |-> Op(<<i - 1, j - 1>>)]])

(* percentile times 1000, by linear interpolation between ranks              *)
Percentile1000(s, pc) ==
  LET srt == SortSeq(s, LAMBDA a, b : a < b)
      h == (Len(s) - 1) * pc
      lo == (h \div 1000) + 1
      r == h % 1000
  IN IF lo >= Len(s) THEN 1000 * srt[Len(s)]
     ELSE 1000 * srt[lo] + r * (srt[lo + 1] - srt[lo])

(* counts (or any whole values) clipped at the percentile, times 1000        *)
Clipped1000(g, pc) ==
  LET v == Percentile1000(Flat(g), pc)
  IN TLCEval([i \in DOMAIN g |-> [j \in DOMAIN g[i] |-> Min2(1000 * g[i][j], v)]])

VisitGrid(w, L, W) == GridOf(L, W, LAMBDA c : Visits(w, c))
(* mean occupation time of a cell in ms (0: never passed through)            *)
MeanTime(w, c) == LET n == InnerVisits(w, c)
                  IN IF n = 0 THEN 0 ELSE (Occupied2(w, c) + n) \div (2 * n)
MeanGrid(w, L, W) == GridOf(L, W, LAMBDA c : MeanTime(w, c))

(* Gaussian kernels (weights exp(-k^2/(2 s^2)) in 1/100000 of the sum,       *)
(* truncated at 4 s), indexed by 10*s; one side, from the centre outwards.   *)
Kernel(s10) ==
  CASE s10 = 5  -> <<78657, 10645, 26>>
    [] s10 = 7  -> <<56985, 20540, 962, 6>>
    [] s10 = 10 -> <<39894, 24197, 5399, 443, 13>>
    [] s10 = 15 -> <<26596, 21297, 10934, 3599, 760, 103, 9>>
    [] s10 = 20 -> <<19947, 17604, 12099, 6476, 2700, 876, 222, 44, 7>>
Reflect(n, i) ==   \* index i of a signal of length n continued by mirroring
  LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
Smooth1(s, s10) ==  \* values at most 20000
  LET k == Kernel(s10)
      n == Len(s)
      at(i) == s[Reflect(n, i) + 1]
  IN TLCEval([i \in 1 .. n |->
       (k[1] * s[i] + 50000 +
        SumSeq([d \in 1 .. (Len(k) - 1) |->
                  k[d + 1] * (at(i - 1 - d) + at(i - 1 + d))])) \div 100000])
Transpose(g) == TLCEval([j \in 1 .. ColsOf(g) |-> [i \in 1 .. RowsOf(g) |-> g[i][j]]])
Smooth2(g, s10) ==
  LET a == TLCEval([i \in DOMAIN g |-> Smooth1(g[i], s10)])
      t == Transpose(a)
  IN Transpose(TLCEval([i \in DOMAIN t |-> Smooth1(t[i], s10)]))

----------------------------------------------------------------------------
(* Chunks: the domain divided row by row into squares of f cells, the last   *)
(* row and column of chunks reaching to the border.                          *)
ChunkCount(n, f) == n \div f
ChunkLo(i, f) == (i - 1) * f
ChunkHi(i, n, f) == IF i = ChunkCount(n, f) THEN n - 1 ELSE i * f - 1
InChunk(c, r, q, L, W, f) ==
  /\ c[1] \in ChunkLo(r, f) .. ChunkHi(r, L, f)
  /\ c[2] \in ChunkLo(q, f) .. ChunkHi(q, W, f)
ChunkOf(c, L, W, f) == CHOOSE rq \in (1 .. ChunkCount(L, f)) \X (1 .. ChunkCount(W, f)) :
                          InChunk(c, rq[1], rq[2], L, W, f)
ChunkCells(r, q, L, W, f) ==
  (ChunkLo(r, f) .. ChunkHi(r, L, f)) \X (ChunkLo(q, f) .. ChunkHi(q, W, f))
=============================================================================
