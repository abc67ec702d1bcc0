------------------------------ MODULE MCFields ------------------------------
(* Design model: one cell whose true state is known is described to the      *)
(* system input by input.  Whatever subset of inputs is given, once it is    *)
(* sufficient the derived fields are the true ones, and further inputs       *)
(* change nothing.  Every subset of inputs is exported and replayed.         *)
EXTENDS Fields, TLC, Json, IOUtils, SequencesExt

Names == {"depth", "stage", "topo", "qx", "qy", "u", "v"}
VARIABLES given, topo, stage, flow, model
vars == <<given, topo, stage, flow, model>>
One(v) == <<<<v>>>>
D == Max2(0, stage - topo)
Input(n) == CASE n = "depth" -> One(D) [] n = "stage" -> One(stage) [] n = "topo" -> One(topo)
              [] n = "qx" -> One(flow[1] * D) [] n = "qy" -> One(flow[2] * D)
              [] n = "u" -> One(flow[1]) [] n = "v" -> One(flow[2])
E == [n \in Names |-> IF n \in given THEN Input(n) ELSE <<>>]
Env == [dx |-> 1, model |-> model, L |-> 1, W |-> 1, depth |-> E["depth"], stage |-> E["stage"],
        topo |-> E["topo"], qx |-> E["qx"], qy |-> E["qy"], u |-> E["u"], v |-> E["v"]]

Init == /\ given = {}
        /\ topo \in {-3, 0, 2, 4} /\ stage \in {-1, 0, 2, 5}
        /\ flow \in {<<0, 0>>, <<3, -2>>, <<-1, 4>>} /\ model \in {"DeltaRCM", ""}
Give == \E n \in Names \ given : given' = given \cup {n} /\ UNCHANGED <<topo, stage, flow, model>>
Spec == Init /\ [][Give]_vars

C == <<0, 0>>
TrueDown == IF model = "DeltaRCM" THEN flow[1] ELSE -flow[2]
TrueRight == IF model = "DeltaRCM" THEN flow[2] ELSE flow[1]
DerivedIsTrue == Sufficient(Env) =>
  /\ DepthAt(Env, C) = D
  /\ StageAt(Env, C) = IF D = 0 THEN NAN ELSE stage
  /\ QDownAt(Env, C) = TrueDown * D /\ QRightAt(Env, C) = TrueRight * D
  /\ D > 0 => VDownAt(Env, C) = 100 * TrueDown /\ VRightAt(Env, C) = 100 * TrueRight
StaysSufficient == [][Sufficient(Env) => Sufficient(Env)']_vars

Collect == TLCSet(42, TLCGet(42) \cup {[given |-> SetToSeq(given), model |-> model]})
ASSUME TLCSet(42, {})
Export == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(42)))
=============================================================================
