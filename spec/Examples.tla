------------------------------ MODULE Examples ------------------------------
(* Walks through domains of measured (not generated) numbers: the routing    *)
(* rules of module Routing up to the precision of the recording.  Inputs are *)
(* rounded to units of 1e-6 (m, m^2/s); tol = <<td, tq>> is how far lengths  *)
(* and discharges may be off.  With tolerance <<0, 0>> the rules are those   *)
(* of Routing (checked in MCExamples).                                       *)
EXTENDS Routing

Drop(e, c, k) == Stage(e, c) - Stage(e, Nb(c, k))
Push(e, c, k) == QDown(e, c) * DI(k) + QRight(e, c) * DJ(k)
Open(e, c, k, t) == /\ k # Stay
                    /\ Depth(e, Nb(c, k)) > e.dry + t
                    /\ (Given(e.ctype) => CType(e, Nb(c, k)) # 2)
                    /\ ~SfcUndef(e, c, k)
(* positive weight for certain / possibly                                    *)
Sure(e, c, k, tol) == /\ Open(e, c, k, tol[1])
                      /\ \/ e.gamma > 0 /\ Drop(e, c, k) > tol[1]
                         \/ e.gamma < 100 /\ Push(e, c, k) > tol[2]
Maybe(e, c, k, tol) == /\ Open(e, c, k, -tol[1])
                       /\ \/ e.gamma > 0 /\ Drop(e, c, k) > -tol[1]
                          \/ e.gamma < 100 /\ Push(e, c, k) > -tol[2]
Allowed(e, c, tol) ==
  IF Frozen(e, c) THEN {c}
  ELSE LET deep == MaxOf({Depth(e, Nb(c, k)) : k \in Dirs})
       IN {Nb(c, k) : k \in {j \in Dirs : Maybe(e, c, j, tol)
             \/ ((\A i \in Dirs : ~Sure(e, c, i, tol)) /\ Depth(e, Nb(c, j)) >= deep - tol[1])}}

(* velocities in 1/100 cm/s, from depth and discharge                        *)
Vel(q, d) == IF d = 0 THEN 0 ELSE Sgn(q) * ScaledDiv(Abs(q), d, 4)
VelD(e, c) == Vel(QDown(e, c), Depth(e, c))
VelR(e, c) == Vel(QRight(e, c), Depth(e, c))
Fast(e, c) == ISqrt(VelD(e, c) * VelD(e, c) + VelR(e, c) * VelR(e, c))
(* duration [ms] of a step between two cells with a well known speed; -1 if  *)
(* the rounded inputs do not determine it                                    *)
Duration(e, c, k) ==
  LET so == Fast(e, c)  sn == Fast(e, Nb(c, k))
      al == VelD(e, c) * DI(k) + VelR(e, c) * DJ(k)
  IN IF so < 400 \/ sn < 400 \/ so > 40000 \/ sn > 40000 \/ Depth(e, c) < 5000 \/ Depth(e, Nb(c, k)) < 5000 THEN -1
     ELSE IF al <= 0 THEN 0
     ELSE LET a == ScaledDiv(al, so, 5)
          IN ScaledDiv(5 * e.dx * a, so, 0) + ScaledDiv(5 * e.dx * a, sn, 0)
DurationOK(e, c, k, dt) ==
  LET b == Duration(e, c, k)
      half == (b * e.dc) \div 200
      low == Min2(Fast(e, c), Fast(e, Nb(c, k)))
      \* the components along the step are known to 2 units each
      slack == b \div 100 + (((4000000 \div low) * e.dx) \div Fast(e, c)) + (10 * e.dx) \div low + 5
  IN b < 0 \/ (dt >= b - half - slack /\ dt <= b + half + slack)
=============================================================================
