------------------------------- MODULE MCWalk -------------------------------
EXTENDS Walk, IOUtils

Row(n, v) == [i \in 1..n |-> v]
Full(L, W, v) == [i \in 1..L |-> Row(W, v)]

Base(d, s, fx, fy) ==
  [L |-> 5, W |-> 6, dx |-> 100, depth |-> d, stage |-> s, topo |-> <<>>,
   fx |-> fx, fy |-> fy, flow |-> "uv", model |-> "DeltaRCM", theta2 |-> 2,
   gamma |-> 5, dry |-> 10, dc |-> 20, sd |-> FALSE, ctype |-> <<>>,
   roi |-> <<>>, vars |-> <<>>]

(* depths of the 2 x 2 block of cells around the mobile ones vary            *)
DepthMap(a, b, c) == [i \in 1..5 |-> [j \in 1..6 |->
   IF i = 3 /\ j = 3 THEN a ELSE IF i = 3 /\ j = 4 THEN b
   ELSE IF i = 4 /\ j = 4 THEN c ELSE IF i = 2 THEN 0 ELSE 100]]
StageMap(s) == [i \in 1..5 |-> [j \in 1..6 |-> s * (i + j)]]

Level == IF "MCLEVEL" \in DOMAIN IOEnv THEN IOEnv.MCLEVEL ELSE "0"
Big == Level = "2"
Mid == Level = "1"

EnvSetDef ==
  { [Base(DepthMap(a, b, c), StageMap(s), Full(5, 6, f[1]), Full(5, 6, f[2]))
       EXCEPT !.gamma = g, !.sd = sd, !.ctype = ct] :
      a \in {5, 100}, b \in IF Big \/ Mid THEN {0, 200} ELSE {200},
      c \in IF Big THEN {0, 100, 300} ELSE {100},
      s \in IF Big THEN {0, -2, 1} ELSE {0, -2},
      f \in {<<0, 20>>} \cup (IF Mid THEN {<<0, 0>>} ELSE {})
                        \cup (IF Big THEN {<<0, 0>>, <<15, -20>>} ELSE {}),
      g \in IF Big THEN {0, 50, 100} ELSE IF Mid THEN {50, 100} ELSE {100},
      sd \in IF Level = "0" THEN {FALSE} ELSE BOOLEAN,
      ct \in {<<>>, Full(5, 6, 0)} }

SeedSetDef(e) == {<<2, 2>>, <<2, 3>>, <<0, 3>>}
MaxPDef == 1
MaxLenDef == IF Level = "0" THEN 3 ELSE 4
TargetsDef == {0, 30000}
LimitsDef == {1, 3}
=============================================================================
