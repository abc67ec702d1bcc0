----------------------------- MODULE MCRouting -----------------------------
(* Laws the routing rule itself has to satisfy, checked over all small       *)
(* surroundings: one mobile cell in the middle of a 5 x 5 domain.            *)
EXTENDS Freq, TLC, IOUtils

Level == IF "MCLEVEL" \in DOMAIN IOEnv THEN IOEnv.MCLEVEL ELSE "0"
Big == Level = "2"
Tiny == Level = "0"

M == <<2, 2>>
Put(a, c, v) == [a EXCEPT ![c[1] + 1][c[2] + 1] = v]
Flat(v) == [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> v]]
Around(vn, ve, vs, vse, vm) ==
  Put(Put(Put(Put(Put(Flat(100), <<1, 2>>, vn), <<2, 3>>, ve), <<3, 2>>, vs), <<3, 3>>, vse), M, vm)

Ds == IF Big THEN {0, 5, 100, 400} ELSE {0, 100, 400}
Ss == IF Big THEN {0, -10, 3} ELSE {0, -10}
Domain(d, s, f, t, g) ==
  [L |-> 5, W |-> 5, dx |-> 100, depth |-> d, stage |-> s, topo |-> <<>>,
   fx |-> Flat(f[1]), fy |-> Flat(f[2]), flow |-> "q", model |-> "DeltaRCM",
   theta2 |-> t, gamma |-> g, dry |-> 10, dc |-> 20, sd |-> FALSE,
   ctype |-> <<>>, roi |-> <<>>, vars |-> <<>>]

VARIABLES e, half
vars == <<e, half>>
None == Domain(Flat(100), Flat(0), <<0, 0>>, 0, 0)
(* the surroundings first, the rest in a second step (so that TLC's workers  *)
(* share the evaluation)                                                     *)
Init == /\ e = None
        /\ half \in {<<vn, ve, vse, vm>> : vn \in Ds, ve \in IF Tiny THEN {100} ELSE Ds,
                                           vse \in Ds, vm \in {0, 100}}
Next == /\ half # <<>>
        /\ half' = <<>>
        /\ \E sn \in Ss, ss \in IF Tiny THEN {-10} ELSE Ss, sse \in Ss,
              f \in {<<0, 0>>, <<3000, -4000>>} \cup
                    (IF Tiny THEN {} ELSE {<<0, 4000>>}) \cup
                    (IF Big THEN {<<2000, 2000>>} ELSE {}),
              t \in {0, 2} \cup (IF Big THEN {1, 4, 7, 10} ELSE {}), g \in {0, 5, 100} :
              e' = Domain(Around(half[1], half[2], 100, half[3], half[4]),
                          Around(sn, 0, ss, sse, 0), f, t, g)
Spec == Init /\ [][Next]_vars

P(d) == TLCEval(Probs(d, M))
Tol(x, y, t) == LET a == TLCEval(x) b == TLCEval(y) IN \A k \in Dirs : Abs(a[k] - b[k]) <= t

SumsToOne == LET p == TLCEval(P(e)) IN SumDirs(p) \in 9985 .. 10000
OnlyAdmissible == LET p == TLCEval(P(e)) IN \A k \in Dirs : p[k] > 0 => k \in Support(e, M)
NoDryTarget == ~DeadEnd(e, M) => \A k \in Support(e, M) : Depth(e, Nb(M, k)) > e.dry

FlipCols(a) == [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> a[i][6 - j]]]
Neg(a) == [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> -a[i][j]]]
Transposed(a) == [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> a[j][i]]]
MirrorDir(k) == (k \div 3) * 3 + (2 - (k % 3))
TransDir(k) == (k % 3) * 3 + (k \div 3)
Mirror == LET p == TLCEval(P(e))
              q == TLCEval(P([e EXCEPT !.depth = FlipCols(e.depth), !.stage = FlipCols(e.stage),
                               !.fy = Neg(e.fy)]))
          IN Tol([k \in Dirs |-> q[MirrorDir(k)]], p, 2)
Transpose == LET p == TLCEval(P(e))
                 q == TLCEval(P([e EXCEPT !.depth = Transposed(e.depth),
                      !.stage = Transposed(e.stage), !.fx = Transposed(e.fy),
                      !.fy = Transposed(e.fx)]))
             IN Tol([k \in Dirs |-> q[TransDir(k)]], p, 2)
(* x right / y up input of the same flow                                     *)
OtherConvention ==
  P(e) = P([e EXCEPT !.model = "", !.fx = e.fy, !.fy = Neg(e.fx)])
ScaleFree == Tol(P(e), P([e EXCEPT !.fx = [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> 3 * e.fx[i][j]]],
                            !.fy = [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> 3 * e.fy[i][j]]]]), 3)
Wetter == [i \in 1 .. 5 |-> [j \in 1 .. 5 |-> IF e.depth[i][j] > e.dry THEN 250 ELSE e.depth[i][j]]]
ThetaZero == (e.theta2 = 0 /\ ~DeadEnd(e, M) /\ Depth(e, M) > e.dry)
                => P(e) = P([e EXCEPT !.depth = Wetter])
GammaZero == (e.gamma = 0 /\ \A k \in Dirs : Depth(e, Nb(M, k)) > 0)
                => P(e) = P([e EXCEPT !.stage = Flat(7)])
GammaOne == e.gamma = 100 => P(e) = P([e EXCEPT !.fx = Flat(-70), !.fy = Flat(11)])
(* raising theta moves probability towards deeper neighbours                 *)
BestIsBest == LET p == TLCEval(P(e))
              IN ~DeadEnd(e, M) => \A k \in Best(e, M) : \A j \in Dirs : p[k] + 60 >= p[j]
TiesAreBest == Tied(e, M) \subseteq Best(e, M)
=============================================================================
