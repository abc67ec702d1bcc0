------------------------------ MODULE Unsteady ------------------------------
(* A walk through a sequence of flow fields: in the i-th model interval the  *)
(* particles run to the target time Ts[i] in the domain Es[i], starting from *)
(* what the interval before left.  The walk data do not say where one        *)
(* interval ends; Ends(i) is the set of all entries at which the i-th        *)
(* interval may have ended.                                                  *)
EXTENDS Walks

(* the step from entry j to j+1 is one that Es may take                      *)
StepOK(e, w, p, j) ==
  StepClauses(e, p, <<w.x[p][j], w.y[p][j]>>, <<w.x[p][j + 1], w.y[p][j + 1]>>,
              w.t[p][j], w.t[p][j + 1]) = {}

(* entries reachable from n within one interval                              *)
RECURSIVE Reach(_, _, _, _, _)
Reach(e, T, w, p, n) ==
  IF n = Len(w.x[p]) \/ ~MayContinue(w.t[p], n, T) \/ ~StepOK(e, w, p, n) THEN {n}
  ELSE {n} \cup Reach(e, T, w, p, n + 1)
StopsAt(e, T, w, p, m) ==
  ~MustContinue(w.t[p], m, T) \/ ~MustMove(e, <<w.x[p][m], w.y[p][m]>>)

RECURSIVE Ends(_, _, _, _, _)
Ends(Es, Ts, w, p, i) ==
  IF i = 0 THEN {1}
  ELSE UNION { {m \in TLCEval(Reach(Es[i], Ts[i], w, p, n)) : StopsAt(Es[i], Ts[i], w, p, m)}
             : n \in TLCEval(Ends(Es, Ts, w, p, i - 1)) }

AcceptsWalk(Es, Ts, w, p) == Len(w.x[p]) \in Ends(Es, Ts, w, p, Len(Es))

(* how far the first intervals explain the walk (for messages)               *)
Explained(Es, Ts, w, p) ==
  [i \in 1 .. Len(Es) |-> LET S == Ends(Es, Ts, w, p, i)
                          IN IF S = {} THEN 0 ELSE MaxOf(S)]
=============================================================================
