------------------------------- MODULE Fields -------------------------------
(* What a domain looks like once its inputs have been given, whichever of    *)
(* them were given.  e.depth, e.stage, e.topo [cm], e.qx, e.qy [cm^2/s],     *)
(* e.u, e.v [cm/s] are arrays or <<>> (not given).  Flows are right/up for   *)
(* general models and already down/right for "DeltaRCM".                     *)
EXTENDS Num

Has(a) == a # <<>>
Val(a, c) == a[c[1] + 1][c[2] + 1]

Sufficient(e) ==
  /\ e.dx > 0
  /\ Has(e.depth) \/ (Has(e.stage) /\ Has(e.topo))
  /\ Has(e.stage) \/ (Has(e.topo) /\ Has(e.depth))
  /\ (Has(e.qx) /\ Has(e.qy)) \/ (Has(e.u) /\ Has(e.v))

DepthAt(e, c) ==
  IF Has(e.depth) THEN IF Val(e.depth, c) = NAN THEN 0 ELSE Val(e.depth, c)
  ELSE IF Val(e.stage, c) = NAN \/ Val(e.topo, c) = NAN THEN 0
  ELSE Max2(0, Val(e.stage, c) - Val(e.topo, c))
StageAt(e, c) ==
  IF DepthAt(e, c) = 0 THEN NAN
  ELSE IF Has(e.stage) THEN Val(e.stage, c)
  ELSE IF Val(e.topo, c) = NAN THEN NAN ELSE Val(e.topo, c) + DepthAt(e, c)

Num0(a) == IF a = NAN THEN 0 ELSE a
Down(e, right, up, c) == IF e.model = "DeltaRCM" THEN Num0(Val(right, c)) ELSE -Num0(Val(up, c))
Right(e, right, up, c) == IF e.model = "DeltaRCM" THEN Num0(Val(up, c)) ELSE Num0(Val(right, c))

FromDischarge(e) == Has(e.qx) /\ Has(e.qy)
(* discharge [cm^2/s]                                                        *)
QDownAt(e, c) == IF FromDischarge(e) THEN Down(e, e.qx, e.qy, c)
                 ELSE Down(e, e.u, e.v, c) * DepthAt(e, c)
QRightAt(e, c) == IF FromDischarge(e) THEN Right(e, e.qx, e.qy, c)
                  ELSE Right(e, e.u, e.v, c) * DepthAt(e, c)
(* velocity [1/100 cm/s]                                                     *)
Per(q, d) == IF d = 0 THEN 0 ELSE Sgn(q) * ScaledDiv(Abs(q), d, 2)
VDownAt(e, c) == IF FromDischarge(e) THEN Per(QDownAt(e, c), DepthAt(e, c))
                 ELSE 100 * Down(e, e.u, e.v, c)
VRightAt(e, c) == IF FromDischarge(e) THEN Per(QRightAt(e, c), DepthAt(e, c))
                  ELSE 100 * Right(e, e.u, e.v, c)

OnRing(L, W, c) == c[1] \in {0, L - 1} \/ c[2] \in {0, W - 1}
TypeAt(e, dry, c) == IF OnRing(e.L, e.W, c) THEN -1
                     ELSE IF DepthAt(e, c) < dry THEN 2 ELSE 0

(* options: value or NONE; percent / half units                              *)
NONE == -77777
Option(v, default) == IF v = NONE THEN default ELSE v
Theta2(o) == Option(o.theta2, 2)
Gamma(o) == Option(o.gamma, 5)
Dry(o) == Option(o.dry, 10)
Steepest(o) == Option(o.sd, 0) = 1
(* a coefficient that is changed or makes no physical sense is warned about  *)
Warns(o) == o.verbose # 0 /\ o.dc # NONE /\ (o.dc < 0 \/ o.dc >= 200)
Diffusion(o) == IF o.dc = NONE THEN IF Steepest(o) THEN 0 ELSE 20 ELSE Max2(0, o.dc)
=============================================================================
