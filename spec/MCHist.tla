------------------------------- MODULE MCHist -------------------------------
(* Design model of the post processing of histories: a walk is recorded      *)
(* entry by entry while exposure to a region and to its complement is        *)
(* accumulated; the accumulators, the closed forms of Histories and the      *)
(* laws a user relies on have to agree in every reachable state.  All        *)
(* complete walks are exported and replayed on the real functions.           *)
EXTENDS Histories, TLC, Json, IOUtils

MaxLen == IF "MAXLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXLEN) ELSE 4
W3 == 0 .. 2                      \* a domain of 1 x 3 cells
Durations == {0, 1000, 2500}
Regions == [1 .. 1 -> [1 .. 3 -> {0, 1}]]

VARIABLES cols, times, roi, acc, accC
vars == <<cols, times, roi, acc, accC>>

Walk == [x |-> <<[j \in DOMAIN cols |-> 0]>>, y |-> <<cols>>, t |-> <<times>>]
NotRoi == [i \in DOMAIN roi |-> [j \in DOMAIN roi[i] |-> 1 - roi[i][j]]]

Init == /\ cols \in {<<c>> : c \in W3} /\ times = <<0>>
        /\ roi \in Regions /\ acc = 0 /\ accC = 0

Here == roi[1][cols[Len(cols)] + 1]

(* one more recorded position, dt later                                      *)
Record(c, dt) ==
  /\ Len(cols) < MaxLen
  /\ cols' = Append(cols, c)
  /\ times' = Append(times, times[Len(times)] + dt)
  /\ acc' = acc + dt * (Here + roi[1][c + 1])
  /\ accC' = accC + dt * (2 - Here - roi[1][c + 1])
  /\ UNCHANGED roi
Next == \E c \in W3, dt \in Durations : Record(c, dt)
Spec == Init /\ [][Next]_vars

ClosedForm == acc = Exposure2(Walk, 1, roi) /\ accC = Exposure2(Walk, 1, NotRoi)
Bounded == 0 <= acc /\ acc <= 2 * Total(Walk, 1)
SharedOut == acc + accC = 2 * Total(Walk, 1)
Part(a, b) == [x |-> <<SubSeq(Walk.x[1], a, b)>>, y |-> <<SubSeq(cols, a, b)>>,
               t |-> <<SubSeq(times, a, b)>>]
Additive == \A m \in 1 .. Len(cols) :
  Exposure2(Part(1, m), 1, roi) + Exposure2(Part(m, Len(cols)), 1, roi) = acc
Outside == (\A j \in DOMAIN cols : roi[1][cols[j] + 1] = 0) => acc = 0

(* the state at any time is an entry, and no other entry is nearer           *)
StateLaws ==
  /\ \A it \in -6 .. 6 : EntryAt(Walk, 1, it) \in 1 .. Len(cols)
  /\ \A T \in {-1, 0, 400, 1000, 1250, 2500, 3500, 9000} :
       LET j == EntryAtTime(Walk, 1, T)
       IN \A k \in 1 .. Len(cols) :
            /\ Abs(times[j] - T) <= Abs(times[k] - T)
            /\ k < j => Abs(times[j] - T) < Abs(times[k] - T)

NourishLaws ==
  /\ SumSeq([c \in 1 .. 3 |-> Visits(Walk, <<0, c - 1>>)]) = Len(cols)
  /\ SumSeq([c \in 1 .. 3 |-> Occupied2(Walk, <<0, c - 1>>)]) <= 2 * Total(Walk, 1)
  /\ \A pc \in {0, 500, 995, 1000} :
       LET g == Clipped1000(VisitGrid(Walk, 1, 3), pc)
       IN \A j \in 1 .. 3 : g[1][j] <= 1000 * Visits(Walk, <<0, j - 1>>)

(* every cell of a domain at least one chunk large lies in exactly one chunk *)
ChunkLaws == \A L \in 1 .. 7, W \in 1 .. 7, f \in 1 .. 3 :
  (L >= f /\ W >= f) =>
    \A c \in (0 .. (L - 1)) \X (0 .. (W - 1)) :
      Cardinality({rq \in (1 .. ChunkCount(L, f)) \X (1 .. ChunkCount(W, f)) :
                     InChunk(c, rq[1], rq[2], L, W, f)}) = 1
ASSUME ChunkLaws

Collect == IF Len(cols) = MaxLen /\ roi = [i \in 1 .. 1 |-> [j \in 1 .. 3 |-> 0]]
           THEN TLCSet(42, TLCGet(42) \cup {[c |-> cols, t |-> times]}) ELSE TRUE
ASSUME TLCSet(42, {})
Export == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(42)))
=============================================================================
