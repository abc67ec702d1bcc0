------------------------------- MODULE MCGeo -------------------------------
(* Design model of the small algorithms of Geo.  Particles are handed out    *)
(* one at a time to the time step with the largest remainder (every order of *)
(* ties); independent laws of the coordinate system and of the filter are    *)
(* evaluated exhaustively over small inputs.                                 *)
EXTENDS Geo, Json, IOUtils

BIG == IF "MCLEVEL" \in DOMAIN IOEnv THEN atoi(IOEnv.MCLEVEL) ELSE 0
QVals == IF BIG = 0 THEN {-2, 0, 1, 3} ELSE {-4, -1, 0, 1, 2, 3, 7}
Steps == 1 .. (IF BIG = 0 THEN 3 ELSE 4)
Totals == 0 .. (IF BIG = 0 THEN 7 ELSE 9)

VARIABLES q, total, given
vars == <<q, total, given>>

Init == /\ q \in UNION {[1 .. n -> QVals] : n \in Steps}
        /\ SumSeq(Size(q)) > 0
        /\ total \in Totals
        /\ given = Floors(q, total)
Waiting == {i \in DOMAIN q : given[i] = FloorShare(q, total, i) /\ Remainder(q, total, i) > 0}
GiveOne == /\ SumSeq(given) < total
           /\ \E i \in Waiting :
                /\ \A j \in Waiting : Remainder(q, total, i) >= Remainder(q, total, j)
                /\ given' = [given EXCEPT ![i] = @ + 1]
           /\ UNCHANGED <<q, total>>
Spec == Init /\ [][GiveOne]_vars

Never == SumSeq(given) <= total
Complete == SumSeq(given) = total => FairCounts(q, total, given)
AlwaysCan == SumSeq(given) < total => Waiting # {}
WholeExact == \A i \in DOMAIN q : Remainder(q, total, i) = 0 => given[i] = FloorShare(q, total, i)

(* laws that do not depend on the state                                      *)
CoordLaws ==
  \A L \in 1 .. 4, cs \in {1, 3, 10}, xo \in {-7, 0, 5}, yo \in {-2, 0, 9} :
    \A c \in (0 .. 3) \X (0 .. 3), x \in -3 .. 3, y \in -3 .. 3 :
      LET X == XOf(c, xo, cs) + x
          Y == YOf(c, yo, cs, L) + y
      IN \A d \in (0 .. 3) \X (0 .. 3) :
           (Belongs(c, X, Y, xo, yo, cs, L) /\ Belongs(d, X, Y, xo, yo, cs, L)) => c = d
ASSUME CoordLaws
MadLaws ==
  \A g \in [1 .. 2 -> [1 .. 3 -> {0, 4, 9, NAN}]], size \in {1, 3}, thr \in {10, 30} :
    \A i \in 1 .. 2, j \in 1 .. 3 :
      LET v == Filtered1000(g, i, j, size, thr)
          w == Window(g, i, j, size)
      IN /\ (v = NAN) = (g[i][j] = NAN)
         /\ v # NAN => /\ v >= 1000 * MinOf({w[a] : a \in DOMAIN w})
                       /\ v <= 1000 * MaxOf({w[a] : a \in DOMAIN w})
         /\ size = 1 /\ v # NAN => v = 1000 * g[i][j]
ASSUME MadLaws
IdwLaws ==
  LET pts == <<<<0, 0>>, <<3, 0>>, <<0, 4>>, <<5, 5>>>>
      qq == <<10, 20, 40, 80>>
  IN \A x \in 0 .. 6, y \in 0 .. 6, k \in 2 .. 4 :
       LET r == IdwRange(pts, qq, k, x, y)
       IN r[1] >= 9990 /\ r[2] <= 80010 /\ r[1] <= r[2]
ASSUME IdwLaws
MassLaws ==
  \A s \in {<<1, 2, 3, 4, 5>>, <<10, 10, 20, 35, 60, 100>>} :
    LET a == MinOf({s[i] : i \in DOMAIN s})
        b == MaxOf({s[i] : i \in DOMAIN s})
    IN /\ MassBelow(s, 1000 * a) = 0 /\ MassBelow(s, 1000 * b) = 10000
       /\ \A t \in a .. (b - 1) : MassBelow(s, 1000 * t) <= MassBelow(s, 1000 * (t + 1))
ASSUME MassLaws

Collect == IF given = Floors(q, total)
           THEN TLCSet(42, TLCGet(42) \cup {[q |-> q, n |-> total]}) ELSE TRUE
ASSUME TLCSet(42, {})
Export == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(42)))
=============================================================================
