------------------------------- MODULE MCMaps -------------------------------
(* Laws of the map definitions over all small maps.                          *)
EXTENDS Maps, IOUtils

Level == IF "MCLEVEL" \in DOMAIN IOEnv THEN IOEnv.MCLEVEL ELSE "0"
Vals == {NoVal, 1, 40, 41, 600} \cup (IF Level = "0" THEN {} ELSE {2, 999, 1000})
VARIABLES m, from, upto
vars == <<m, from, upto>>
Init == /\ m \in [1 .. 2 -> [1 .. 2 -> Vals]] /\ Defined(m) # {}
        /\ from \in 0 .. 2 /\ upto \in from .. 4
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* a map drawn by the definition: full opacity from the middle value on      *)
Mid == (Least(m) + Greatest(m)) \div 2
Ref(least) == [i \in 1 .. 2 |-> [j \in 1 .. 2 |->
   IF m[i][j] = NoVal THEN <<0, 0>>
   ELSE <<ScaleAt(m[i][j], Least(m), Greatest(m)),
          Max2(least, Min2(255, (255 * m[i][j]) \div Max2(Mid, 1)))>>]]
RefAccepted == \A a \in {0, 76, 255} :
   /\ Colours(Ref(a), m, Least(m), Greatest(m), 0) /\ Opacity(Ref(a), m, a)
Turned == [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> Ref(0)[j][i]]]
(* a transposed map is noticed unless it cannot be told apart                *)
TurnedRejected ==
   (m[1][2] # NoVal /\ m[2][1] # NoVal /\ Abs(m[1][2] - m[2][1]) > 10)
      => ~Colours(Turned, m, Least(m), Greatest(m), 1)
Order == \A c, d \in Defined(m) : At(m, c) <= At(m, d)
   => ScaleAt(At(m, c), Least(m), Greatest(m)) <= ScaleAt(At(m, d), Least(m), Greatest(m))
Ends == LET hi == Greatest(m) lo == Least(m) IN
   /\ ScaleAt(lo, lo, hi) = 0 /\ (hi > lo => ScaleAt(hi, lo, hi) = 255)
FramesInOrder == LET f == Frames(from, upto) IN
   /\ Len(f) = upto - from
   /\ \A i \in DOMAIN f : f[i] = from + i - 1 /\ f[i] < upto
EvenLevels == Levels([i \in 1 .. 5 |-> 250 * (i - 1)], 1000, 5) /\ ~Levels([i \in 1 .. 5 |-> 200 * i], 1000, 5)
=============================================================================
