----------------------------- MODULE MCUnsteady -----------------------------
(* Generates walks through two or three flow fields by the stopping rule     *)
(* itself and checks that Unsteady explains every one of them, and refuses   *)
(* walks that ran on past an interval's end in its old field.                *)
EXTENDS Unsteady, IOUtils

Level == IF "MCLEVEL" \in DOMAIN IOEnv THEN IOEnv.MCLEVEL ELSE "0"
Full(v) == [i \in 1 .. 7 |-> [j \in 1 .. 7 |-> v]]
Dom(f, g, d) ==
  [L |-> 7, W |-> 7, dx |-> 100, depth |-> [Full(100) EXCEPT ![4][5] = d], stage |-> Full(0),
   topo |-> <<>>, fx |-> Full(f[1]), fy |-> Full(f[2]), flow |-> "q", model |-> "",
   theta2 |-> 2, gamma |-> g, dry |-> 10, dc |-> 20, sd |-> FALSE, ctype |-> <<>>,
   roi |-> <<>>, vars |-> <<>>]
Flows == {<<5000, 0>>, <<0, 5000>>, <<0, 0>>} \cup
         (IF Level = "0" THEN {} ELSE {<<-5000, 0>>, <<4000, -3000>>})
Step == 30000

VARIABLES es, i, w, stop
vars == <<es, i, w, stop>>
Init == /\ es \in {<<Dom(a, 0, d), Dom(b, 0, 100)>> : a \in Flows, b \in Flows, d \in {0, 100}}
        /\ i = 1 /\ stop = FALSE
        /\ w = [x |-> <<<<3>>>>, y |-> <<<<3>>>>, t |-> <<<<0>>>>, vars |-> <<>>]
Here == Loc(w, 1)
Tgt(k) == k * Step
Move ==
  /\ ~stop /\ i <= Len(es)
  /\ ~Frozen(es[i], Here) /\ Ahead(w.t[1], Len(w.t[1]), Tgt(i)) <= 0
  /\ Len(w.x[1]) < (IF Level = "0" THEN 5 ELSE 7)
  /\ \E k \in MoveSet(es[i], Here) :
       /\ k # Stay
       /\ \E dt \in {BaseTime(es[i], Here, k)} :
            w' = [w EXCEPT !.x[1] = Append(@, Nb(Here, k)[1]),
                           !.y[1] = Append(@, Nb(Here, k)[2]),
                           !.t[1] = Append(@, Min2(HUGE, w.t[1][Len(w.t[1])] + dt))]
  /\ UNCHANGED <<es, i, stop>>
EndInterval ==
  /\ ~stop /\ i <= Len(es)
  /\ \/ Frozen(es[i], Here)
     \/ Ahead(w.t[1], Len(w.t[1]), Tgt(i)) > 0
     \/ Stay \in MoveSet(es[i], Here)
  /\ i' = i + 1 /\ stop' = (i = Len(es))
  /\ UNCHANGED <<es, w>>
Next == Move \/ EndInterval
Spec == Init /\ [][Next]_vars

Explains == stop => AcceptsWalk(es, [k \in 1 .. Len(es) |-> Tgt(k)], w, 1)
(* a walk that is still going is not taken for a finished one when it must   *)
(* move on                                                                   *)
Strict == (~stop /\ i = Len(es) /\ MustContinue(w.t[1], Len(w.t[1]), Tgt(i))
           /\ MustMove(es[i], Here) /\ \A k \in 1 .. Len(es) - 1 : MustMove(es[k], Here))
          => ~AcceptsWalk(es, [k \in 1 .. Len(es) |-> Tgt(k)], w, 1)
=============================================================================
