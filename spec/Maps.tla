-------------------------------- MODULE Maps --------------------------------
(* What heat maps and animations show.  A map is a sequence of rows of       *)
(* values (fixed point, NoVal where undefined); a drawn map gives for every  *)
(* cell <<colour, opacity>>: the place in the colour scale (0..255) and      *)
(* opacity 0..255.                                                           *)
EXTENDS Num, Sequences, FiniteSets

NoVal == -99999
CellsOf(m) == {<<i, j>> : i \in DOMAIN m, j \in DOMAIN m[1]}
At(m, c) == m[c[1]][c[2]]
Defined(m) == {c \in CellsOf(m) : At(m, c) # NoVal}
Least(m) == MinOf({At(m, c) : c \in Defined(m)})
Greatest(m) == MaxOf({At(m, c) : c \in Defined(m)})

(* position in a colour scale from lo to hi                                  *)
ScaleAt(v, lo, hi) == IF hi <= lo THEN 0 ELSE Min2(255, Max2(0, (256 * (v - lo)) \div (hi - lo)))

SameShape(drawn, m) == /\ DOMAIN drawn = DOMAIN m
                       /\ \A i \in DOMAIN m : DOMAIN drawn[i] = DOMAIN m[i]
Colours(drawn, m, lo, hi, slack) ==
  \A c \in Defined(m) : Abs(At(drawn, c)[1] - ScaleAt(At(m, c), lo, hi)) <= slack
(* opacity: never less than asked for, growing with the value, full for the  *)
(* greatest, none where there is no value                                    *)
Opacity(drawn, m, least) ==
  /\ \A c \in CellsOf(m) \ Defined(m) : At(drawn, c)[2] = 0
  /\ \A c \in Defined(m) : At(drawn, c)[2] >= least - 1
  /\ LET top == Greatest(m)
         seen == {<<At(m, c), At(drawn, c)[2]>> : c \in Defined(m)}
     IN \A p, q \in seen : /\ p[1] = top => p[2] >= 254
                           /\ p[1] <= q[1] => p[2] <= q[2]

(* a scale of n levels from 0 to top, even                                   *)
Levels(lv, top, n) == /\ Len(lv) = n
                      /\ \A i \in 1 .. n : Abs((n - 1) * lv[i] - (i - 1) * top) <= n

(* an animation is a sequence of figures: those numbered from .. upto - 1    *)
Frames(from, upto) == [i \in 1 .. (upto - from) |-> from + i - 1]
=============================================================================
