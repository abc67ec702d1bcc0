-------------------------------- MODULE Freq --------------------------------
(* What can be said about many independent choices made in one cell: counts  *)
(* of the nine directions against the routing probabilities, durations of    *)
(* equal steps against the range that diffusion opens.                       *)
EXTENDS Routing

(* an observed count of n trials with probability p (ten-thousandths) that   *)
(* no fair sampling produces: more than 6.5 standard deviations away, plus   *)
(* what the fixed point arithmetic of the specification may be off           *)
RECURSIVE Scaled(_, _)
Scaled(n, p) == IF n > 200000 THEN 10 * Scaled(n \div 10, p)
                ELSE (n * p) \div 10000
Expected(n, p) == Scaled(n, p)
Sigma(n, p) == ISqrt(Scaled(Scaled(n, p), 10000 - p)) + 1
FairCount(n, p, obs) ==
  Abs(obs - Expected(n, p)) <= (13 * Sigma(n, p)) \div 2 + 8 + n \div 3000

(* ways of choosing that only differ by symmetry: dorado's arithmetic gives  *)
(* them exactly the same weight                                              *)
SameClass(e, c, a, b) ==
  IF DeadEnd(e, c) THEN TRUE
  ELSE /\ Diag(a) = Diag(b)
       /\ SfcRaw(e, c, a) = SfcRaw(e, c, b)
       /\ IntRaw(e, c, a) = IntRaw(e, c, b)
       /\ Depth(e, Nb(c, a)) = Depth(e, Nb(c, b))
Tied(e, c) == LET B == Best(e, c)
              IN IF \A a, b \in B : SameClass(e, c, a, b) THEN B ELSE {}

(* number of durations in the four quarters of [b - half, b + half]          *)
Quarter(b, half, ts, i) ==
  Cardinality({a \in DOMAIN ts :
     CASE i = 1 -> ts[a] < b - half \div 2
       [] i = 2 -> ts[a] >= b - half \div 2 /\ ts[a] < b
       [] i = 3 -> ts[a] >= b /\ ts[a] < b + half \div 2
       [] i = 4 -> ts[a] >= b + half \div 2})
=============================================================================
