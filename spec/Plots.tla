------------------------------- MODULE Plots -------------------------------
(* What plots of walk data and exposure times show.                          *)
EXTENDS Histories

(* --- exposure time distributions; ex: exposure times [ms], one per         *)
(* particle; end: end of the record [ms]                                     *)
EndOf(w, uniform) ==
  LET S == {w.t[p][LenOf(w, p)] : p \in 1 .. NPart(w)}
  IN IF uniform THEN MaxOf(S) ELSE MinOf(S)
Counted(ex, end) == {i \in DOMAIN ex : ex[i] > 0 /\ 100 * ex[i] < 99 * end}
ExitedBy(ex, end, t) == Cardinality({i \in Counted(ex, end) : ex[i] <= t})

(* a drawn curve: points (x, y) with x in ms and y in thousandths of a       *)
(* particle; for a step line the value at t is that of the last point with   *)
(* x <= t                                                                    *)
Nondecreasing(s) == \A i \in 1 .. (Len(s) - 1) : s[i] <= s[i + 1]
ValueAt(c, t) == LET S == {i \in DOMAIN c.x : c.x[i] <= t} IN c.y[MaxOf(S)]
Shape(c, end) == /\ Len(c.x) = Len(c.y) /\ Len(c.x) > 0
                 /\ Nondecreasing(c.x) /\ Nondecreasing(c.y)
                 /\ c.x[1] = 0 /\ Abs(c.x[Len(c.x)] - end) <= 1
Instants(ex, end) == {0, end} \cup {t \in UNION {{ex[i] - 3, ex[i], ex[i] + 3} : i \in DOMAIN ex} :
                                      t >= 0 /\ t <= end}
(* at an instant within rounding of a jump either side of it is right        *)
RightAt(ex, end, t, y) == \E d \in {-1, 0, 1} : Abs(y - 1000 * ExitedBy(ex, end, t + d)) <= 1
ExactCurve(c, ex, end) ==
  Shape(c, end) /\ c.y[1] = 0 /\ \A t \in Instants(ex, end) : RightAt(ex, end, t, ValueAt(c, t))
BinnedCurve(c, ex, end, nbins) ==
  /\ Shape(c, end) /\ Len(c.x) = nbins
  /\ \A i \in DOMAIN c.x :
       /\ Abs(c.x[i] - ScaledDiv((i - 1) * (end \div 10), nbins - 1, 1)) <= 10 + end \div 100000
       /\ RightAt(ex, end, c.x[i], c.y[i])

(* the cumulative curve as a line through its steps, in thousandths of a     *)
(* particle, and its slope by central differences per grid interval          *)
LinAt(S, t) ==                       \* S: exposure times counted, sorted
  LET j == Cardinality({i \in DOMAIN S : S[i] <= t})
      a == IF j = 0 THEN 0 ELSE S[j]
  IN IF t <= 0 THEN 0
     ELSE IF j = Len(S) THEN 1000 * j
     ELSE 1000 * j + (1000 * (t - a)) \div (S[j + 1] - a)
Sorted(ex, end) == LET I == SetToSortSeq(Counted(ex, end), LAMBDA i, k : ex[i] < ex[k] \/ (ex[i] = ex[k] /\ i < k))
                   IN [n \in DOMAIN I |-> ex[I[n]]]
GridTime(i, end, nbins) == ((i - 1) * end) \div (nbins - 1)
(* c.y: slope times the length of an interval                                *)
SlopeCurve(c, ex, end, nbins) ==
  LET S == Sorted(ex, end)
      lo(i) == LinAt(S, GridTime(i, end, nbins) - 1)
      hi(i) == LinAt(S, GridTime(i, end, nbins) + 2)
  IN /\ Len(c.x) = nbins /\ Len(c.y) = nbins /\ Nondecreasing(c.x)
     /\ c.x[1] = 0 /\ Abs(c.x[nbins] - end) <= 1
     /\ \A i \in 1 .. nbins :
          LET a == Max2(1, i - 1)  b == Min2(nbins, i + 1)
          IN /\ (b - a) * c.y[i] >= lo(b) - hi(a) - 6
             /\ (b - a) * c.y[i] <= hi(b) - lo(a) + 6

(* the first time at which at least the given share [%] of all particles     *)
(* has left; -1 if that never happens                                        *)
Reached(ex, end, share) ==
  LET T == {t \in {ex[i] : i \in Counted(ex, end)} :
              100 * ExitedBy(ex, end, t) >= share * Len(ex)}
  IN IF T = {} THEN -1 ELSE MinOf(T)
(* reported to three digits                                                  *)
ReportedExact(m, ex, end) ==
  LET want == Reached(ex, end, m[1])
  IN IF want = -1 THEN m[2] = -1 ELSE m[2] >= 0 /\ Abs(m[2] - want) <= 1 + want \div 190
(* reported at the resolution of the bins, in whole units (unit in ms)       *)
ReportedBinned(m, ex, end, nbins, unit) ==
  LET want == Reached(ex, end, m[1])
      bin == {GridTime(i, end, nbins) : i \in {k \in 1 .. nbins : GridTime(k, end, nbins) + 1 >= want}}
      t == MinOf(bin)
  IN IF want = -1 THEN m[2] = -1
     ELSE m[2] >= 0 /\ m[2] <= t + 2 + end \div (nbins - 1) /\ m[2] + unit + 2 > want

(* the axes span the record and all fractions (ms and thousandths)           *)
Spans(lim, hi) == Abs(lim[1]) <= 1 + hi \div 1000 /\ Abs(lim[2] - hi) <= 1 + hi \div 1000
(* the grid is shown, every value in its own cell                            *)
Underlaid(pics, g) == \E i \in DOMAIN pics : pics[i].up /\ pics[i].data = g

(* --- positions; a drawn point is <<column, row>>                           *)
Spot(w, p, j) == <<w.y[p][j], w.x[p][j]>>
SpotsAt(w, it) == [p \in 1 .. NPart(w) |-> Spot(w, p, EntryAt(w, p, it))]
SpotsAtTime(w, T) == [p \in 1 .. NPart(w) |-> Spot(w, p, EntryAtTime(w, p, T))]
(* entries 1, 1 + every, 1 + 2 every, ...                                    *)
PathOf(w, p, every) ==
  [i \in 1 .. ((LenOf(w, p) - 1) \div every) + 1 |-> Spot(w, p, (i - 1) * every + 1)]

(* --- tails: the figure of iteration ii may only show entries up to ii      *)
RECURSIVE Within(_, _, _, _, _, _)
Within(w, p, ii, seg, i, from) ==      \* seg[i..] is a subsequence of the entries from..
  IF i > Len(seg) THEN TRUE
  ELSE \E j \in from .. Min2(ii + 1, LenOf(w, p)) :
          Spot(w, p, j) = seg[i] /\ Within(w, p, ii, seg, i + 1, j + 1)
TailOf(w, p, ii, seg) == LenOf(w, p) >= ii /\ Within(w, p, ii, seg, 1, 1)
(* the pairs of positions the figure of iteration ii joins for a particle:   *)
(* k steps back, each step `every` entries; `tail` of them if there are      *)
(* so many entries                                                           *)
Ages(ii, every, tail) == {k \in 0 .. (tail - 1) : ii - (k + 1) * every >= 1}
PairAt(w, p, ii, every, k) == <<Spot(w, p, ii - (k + 1) * every), Spot(w, p, ii - k * every)>>
(* colours fade evenly from the newest to the oldest; thousandths            *)
Fade(from, to, tail, k) == [i \in 1 .. 4 |->
  IF tail = 1 THEN from[i] ELSE from[i] + ((to[i] - from[i]) * k) \div (tail - 1)]
SameColour(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 2
SnakeSteps(w, every, steps) ==
  {ii \in {every * k : k \in 1 .. (steps - 1)} : \E p \in 1 .. NPart(w) : LenOf(w, p) >= ii}
=============================================================================
