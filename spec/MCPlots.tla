------------------------------ MODULE MCPlots ------------------------------
(* Laws of the plot definitions over all small recordings.                   *)
EXTENDS Plots, IOUtils

Level == IF "MCLEVEL" \in DOMAIN IOEnv THEN IOEnv.MCLEVEL ELSE "0"
N == IF Level = "0" THEN 3 ELSE 4
Vals == {0, 100, 101, 500, 990, 991, 1000}
VARIABLES ex, w, every
vars == <<ex, w, every>>
Rec(a, b) == [x |-> <<SubSeq(<<0, 1, 1, 2, 3>>, 1, a), SubSeq(<<4, 3, 4, 3, 4>>, 1, b)>>,
              y |-> <<SubSeq(<<5, 5, 6, 6, 7>>, 1, a), SubSeq(<<1, 1, 1, 1, 1>>, 1, b)>>,
              t |-> <<SubSeq(<<0, 100, 300, 300, 1000>>, 1, a), SubSeq(<<0, 200, 400, 800, 900>>, 1, b)>>,
              vars |-> <<>>]
Init == /\ ex \in [1 .. N -> Vals]
        /\ w \in {Rec(a, b) : a \in 1 .. 5, b \in {1, 3, 5}}
        /\ every \in 1 .. 3
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

End == 1000
(* the reference curve of the definition is accepted, a shifted one is not   *)
Ref == LET ts == SetToSortSeq({0, End} \cup {ex[i] : i \in Counted(ex, End)}, LAMBDA a, b : a < b)
       IN [x |-> ts, y |-> [i \in DOMAIN ts |-> 1000 * ExitedBy(ex, End, ts[i])]]
RefAccepted == ExactCurve(Ref, ex, End)
LostParticle == Counted(ex, End) # {} =>
   ~ExactCurve([Ref EXCEPT !.y = [i \in DOMAIN Ref.y |-> Max2(0, Ref.y[i] - 1000)]], ex, End)
Bounded == \A t \in Instants(ex, End) : ExitedBy(ex, End, t) \in 0 .. N
FinalValue == ExitedBy(ex, End, End) = Cardinality(Counted(ex, End))
(* the slope of the reference line is accepted, never negative               *)
SlopeRef(nb) == [x |-> [i \in 1 .. nb |-> GridTime(i, End, nb)],
                 y |-> [i \in 1 .. nb |->
                     LET a == Max2(1, i - 1)  b == Min2(nb, i + 1)
                     IN (LinAt(Sorted(ex, End), GridTime(b, End, nb))
                          - LinAt(Sorted(ex, End), GridTime(a, End, nb))) \div (b - a)]]
SlopeAccepted == \A nb \in {2, 3, 11} : /\ SlopeCurve(SlopeRef(nb), ex, End, nb)
                                        /\ \A i \in 1 .. nb : SlopeRef(nb).y[i] >= 0
LinMeetsSteps == \A i \in Counted(ex, End) : LinAt(Sorted(ex, End), ex[i]) = 1000 * ExitedBy(ex, End, ex[i])
ReportOrdered == \A a \in {50, 75} : LET b == IF a = 50 THEN 75 ELSE 90 IN
   Reached(ex, End, b) # -1 => Reached(ex, End, a) # -1 /\ Reached(ex, End, a) <= Reached(ex, End, b)
ReportRight == \A a \in {50, 75, 90} : LET r == Reached(ex, End, a) IN
   IF r = -1 THEN 100 * Cardinality(Counted(ex, End)) < a * N
   ELSE /\ 100 * ExitedBy(ex, End, r) >= a * N
        /\ 100 * ExitedBy(ex, End, r - 1) < a * N

PathEnds == \A p \in 1 .. 2 :
   LET a == PathOf(w, p, every)
   IN /\ a[1] = Spot(w, p, 1)
      /\ \A i \in DOMAIN a : a[i] = Spot(w, p, (i - 1) * every + 1)
      /\ Len(a) * every >= LenOf(w, p)
AllShown == every = 1 => \A p \in 1 .. 2 : Len(PathOf(w, p, 1)) = LenOf(w, p)
SpotsAgree == \A T \in {0, 250, 5000} : \A p \in 1 .. 2 :
   \E it \in 0 .. 4 : SpotsAtTime(w, T)[p] = SpotsAt(w, it)[p]
(* the tail made of every entry so far is one; running ahead is not          *)
Tails == \A ii \in SnakeSteps(w, every, 4) : \A p \in 1 .. 2 : LenOf(w, p) >= ii =>
   /\ TailOf(w, p, ii, [j \in 1 .. ii |-> Spot(w, p, j)])
   /\ ~TailOf(w, p, ii, <<Spot(w, p, 1), <<99, 99>>>>)
=============================================================================
