------------------------------ MODULE Routing ------------------------------
(* What a hydrodynamic domain is, and what a particle standing in one of its *)
(* cells may do next.  Everything is stated over the USER's inputs (an       *)
(* environment record `e`); nothing here refers to how dorado computes it.   *)
(*                                                                           *)
(* e.L, e.W        rows, columns            e.dx    cell size [dm]           *)
(* e.depth, e.stage, e.topo   arrays [cm] or <<>> when not supplied          *)
(* e.fx, e.fy      user's flow components: discharge [cm^2/s] (e.flow="q")   *)
(*                 or velocity [cm/s] (e.flow="uv")                          *)
(* e.model         "DeltaRCM" (arrays already row/column) or "" (x right,    *)
(*                 y up)                                                     *)
(* e.theta2 = 2*theta, e.gamma [%], e.dry [cm], e.dc diffusion [%], e.sd     *)
(* e.ctype         cell types, or <<>> for the default                       *)
(* e.roi           0/1 array or <<>>        e.vars  tracked variable names   *)
EXTENDS Num, TLC

(* arrays smaller than the domain are tiles that repeat all over it          *)
At(a, c) == LET r == a[(c[1] % Len(a)) + 1] IN r[(c[2] % Len(r)) + 1]
Rows(e) == 0 .. (e.L - 1)
Cols(e) == 0 .. (e.W - 1)
Cells(e) == Rows(e) \X Cols(e)
Inside(e, c) == c[1] \in Rows(e) /\ c[2] \in Cols(e)

Dirs == 0 .. 8
DI(k) == (k \div 3) - 1          \* row step    (down is +1)
DJ(k) == (k % 3) - 1             \* column step (right is +1)
Stay == 4
Nb(c, k) == <<c[1] + DI(k), c[2] + DJ(k)>>
Diag(k) == DI(k) # 0 /\ DJ(k) # 0
DirOf(c, d) == (d[1] - c[1] + 1) * 3 + (d[2] - c[2] + 1)
Adjacent(c, d) == Abs(c[1] - d[1]) <= 1 /\ Abs(c[2] - d[2]) <= 1 /\ c # d

Border(e, c) == c[1] = 0 \/ c[2] = 0 \/ c[1] = e.L - 1 \/ c[2] = e.W - 1

----------------------------------------------------------------------------
(* Fields derived from the inputs                                            *)
Given(a) == a # <<>>

Depth(e, c) ==
  IF Given(e.depth)
  THEN IF At(e.depth, c) = NAN THEN 0 ELSE At(e.depth, c)
  ELSE IF At(e.stage, c) = NAN \/ At(e.topo, c) = NAN THEN 0
       ELSE Max2(0, At(e.stage, c) - At(e.topo, c))

Stage(e, c) ==
  IF Depth(e, c) = 0 THEN NAN
  ELSE IF Given(e.stage) THEN At(e.stage, c)
  ELSE IF At(e.topo, c) = NAN THEN NAN ELSE At(e.topo, c) + Depth(e, c)

(* row/column components of the flow (down, right)                           *)
Zero(a) == IF a = NAN THEN 0 ELSE a
FlowDown(e, c)  == IF e.model = "DeltaRCM" THEN Zero(At(e.fx, c))
                   ELSE -Zero(At(e.fy, c))
FlowRight(e, c) == IF e.model = "DeltaRCM" THEN Zero(At(e.fy, c))
                   ELSE Zero(At(e.fx, c))

(* discharge and velocity of a cell.  Generators only supply discharges that *)
(* are whole multiples of the depth, so the division is exact.               *)
QDown(e, c)  == IF e.flow = "q" THEN FlowDown(e, c)
                ELSE FlowDown(e, c) * Depth(e, c)
QRight(e, c) == IF e.flow = "q" THEN FlowRight(e, c)
                ELSE FlowRight(e, c) * Depth(e, c)
Quot(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
VDown(e, c)  == IF e.flow = "uv" THEN FlowDown(e, c)
                ELSE IF Depth(e, c) = 0 THEN 0
                ELSE Quot(FlowDown(e, c), Depth(e, c))
VRight(e, c) == IF e.flow = "uv" THEN FlowRight(e, c)
                ELSE IF Depth(e, c) = 0 THEN 0
                ELSE Quot(FlowRight(e, c), Depth(e, c))

(* speed in 1/100 cm/s; 0 stands for still water                             *)
SqSum(e, c) == VDown(e, c) * VDown(e, c) + VRight(e, c) * VRight(e, c)
Speed(e, c) == IF SqSum(e, c) <= 200000 THEN ISqrt(SqSum(e, c) * 10000)
               ELSE 10 * ISqrt(SqSum(e, c) * 100)

CType(e, c) ==
  IF Given(e.ctype) THEN At(e.ctype, c)
  ELSE IF Border(e, c) THEN -1
  ELSE IF Depth(e, c) < e.dry THEN 2 ELSE 0

(* a particle whose 3x3 surroundings touch an edge cell has left the domain  *)
NearEdge(e, c) ==
  \E k \in Dirs : Inside(e, Nb(c, k)) /\ CType(e, Nb(c, k)) = -1

(* the upper left corner is the model's "nowhere" cell                       *)
Frozen(e, c) == NearEdge(e, c) \/ Border(e, c)

----------------------------------------------------------------------------
(* Routing weights                                                           *)
Admissible(e, c, k) == LET n == Nb(c, k)
  IN Depth(e, n) > e.dry /\ CType(e, n) # 2

(* water surface drop per distance, 1000ths of cm; NAN if a stage is missing *)
SfcUndef(e, c, k) == Stage(e, c) = NAN \/ Stage(e, Nb(c, k)) = NAN
SfcRaw(e, c, k) ==
  IF k = Stay \/ ~Admissible(e, c, k) \/ SfcUndef(e, c, k) THEN 0
  ELSE LET d == Stage(e, c) - Stage(e, Nb(c, k))
       IN IF d <= 0 THEN 0 ELSE IF Diag(k) THEN d * 707 ELSE d * 1000

(* discharge pushing towards the neighbour (twice, to keep diagonals whole)  *)
IntRaw(e, c, k) ==
  IF k = Stay \/ ~Admissible(e, c, k) THEN 0
  ELSE LET q == QDown(e, c) * DI(k) + QRight(e, c) * DJ(k)
       IN IF q <= 0 THEN 0 ELSE IF Diag(k) THEN q ELSE 2 * q

SumDirs(f) == SumTo([i \in 1..9 |-> f[i - 1]], 9)

Positive(e, c, k) ==
  /\ k # Stay
  /\ Admissible(e, c, k)
  /\ ~SfcUndef(e, c, k)
  /\ \/ e.gamma > 0 /\ SfcRaw(e, c, k) > 0
     \/ e.gamma < 100 /\ IntRaw(e, c, k) > 0

DeadEnd(e, c) == \A k \in Dirs : ~Positive(e, c, k)
Deepest(e, c) == LET m == MaxOf({Depth(e, Nb(c, k)) : k \in Dirs})
                 IN {k \in Dirs : Depth(e, Nb(c, k)) = m}

(* the directions a particle may take by weighted random walk                *)
Support(e, c) ==
  IF Border(e, c) THEN {Stay}
  ELSE IF DeadEnd(e, c) THEN Deepest(e, c)
  ELSE {k \in Dirs : Positive(e, c, k)}

(* (depth/deepest possible target)^theta in ten-thousandths                        *)
DepthPow(e, c, k) ==
  LET m == MaxOf({0} \cup {Depth(e, Nb(c, j)) : j \in {i \in Dirs : Positive(e, c, i)}})
      r == IF m = 0 THEN 0 ELSE Min2(10000, Frac(Depth(e, Nb(c, k)), m))
      s == ISqrt(r * 10000)
  IN CASE e.theta2 = 0 -> 10000
       [] e.theta2 = 1 -> s
       [] e.theta2 = 2 -> r
       [] e.theta2 = 3 -> (r * s) \div 10000
       [] e.theta2 = 4 -> (r * r) \div 10000
       [] OTHER -> (r * r) \div 10000       \* higher powers: HighWeights

(* the two factors of every weight, each relative to its largest value: the  *)
(* mixture of the shares of surface drop and discharge (in 1/100000), and    *)
(* the depth factor (in 1/10000)                                             *)
Mix(e, c) ==
  LET sf == TLCEval([k \in Dirs |-> SfcRaw(e, c, k)])
      it == TLCEval([k \in Dirs |-> IntRaw(e, c, k)])
      ss == SumDirs(sf)
      si == SumDirs(it)
      fs(k) == IF ss = 0 THEN 0 ELSE ScaledDiv(sf[k], ss, 6)
      fi(k) == IF si = 0 THEN 0 ELSE ScaledDiv(it[k], si, 6)
  IN [k \in Dirs |-> IF ~Positive(e, c, k) THEN 0
                     ELSE e.gamma * fs(k) + (100 - e.gamma) * fi(k)]

Factors(e, c) ==
  LET mix == TLCEval(Mix(e, c))
      top == MaxOf({mix[k] : k \in Dirs})
  IN [k \in Dirs |-> IF ~Positive(e, c, k) \/ top = 0 THEN <<0, 0>>
                     ELSE <<ScaledDiv(mix[k], top, 5), DepthPow(e, c, k)>>]

(* high powers of the depth (theta > 2): one factor at a time, kept between  *)
(* 10^5 and 10^6 for the highest                                             *)
RECURSIVE LiftUp(_), RaisedBy(_, _, _, _)
LiftUp(w) == IF \A k \in Dirs : w[k] = 0 THEN w
            ELSE IF \E k \in Dirs : w[k] > 100000 THEN w
            ELSE LiftUp([k \in Dirs |-> 10 * w[k]])
RaisedBy(w, d, m, n) ==
  IF n = 0 THEN w
  ELSE RaisedBy(TLCEval(LiftUp(TLCEval([k \in Dirs |-> (w[k] * d[k]) \div m]))), d, m, n - 1)
HighWeights(e, c) ==
  LET mix == TLCEval(Mix(e, c))
      top == MaxOf({mix[k] : k \in Dirs})
      d == TLCEval([k \in Dirs |-> IF Positive(e, c, k) THEN Depth(e, Nb(c, k)) ELSE 0])
      m == MaxOf({d[k] : k \in Dirs})
      rt(k) == IF e.theta2 % 2 = 0 THEN 10000 ELSE ISqrt(Frac(d[k], m) * 10000)
      w == TLCEval([k \in Dirs |-> IF d[k] = 0 \/ top = 0 THEN 0
                                   ELSE IF e.theta2 % 2 = 0 THEN ScaledDiv(mix[k], top, 6)
                                   ELSE (ScaledDiv(mix[k], top, 5) * rt(k)) \div 1000])
  IN IF m = 0 \/ top = 0 THEN [k \in Dirs |-> 0]
     ELSE RaisedBy(TLCEval(LiftUp(w)), d, m, e.theta2 \div 2)

(* weights of the 9 directions, relative scale                               *)
Weights(e, c) ==
  IF Border(e, c) THEN [k \in Dirs |-> IF k = Stay THEN 1 ELSE 0]
  ELSE IF DeadEnd(e, c)
  THEN [k \in Dirs |-> IF k \in Deepest(e, c) THEN 10000 ELSE 0]
  ELSE IF e.theta2 > 4 THEN HighWeights(e, c)
  ELSE LET f == TLCEval(Factors(e, c))
       IN [k \in Dirs |-> (f[k][1] * f[k][2]) \div 10]

(* probabilities in ten-thousandths                                          *)
Probs(e, c) == LET w == Weights(e, c)
                   s == SumDirs(w)
               IN [k \in Dirs |-> IF s = 0 THEN 0
                                  ELSE IF s < 150000000 THEN Frac(w[k], s)
                                  ELSE Frac(w[k] \div 10, s \div 10)]

(* steepest descent: the highest weighted direction(s); those that the fixed *)
(* point arithmetic cannot separate from the highest count as well           *)
Best(e, c) ==
  LET f == TLCEval(Factors(e, c))
      high == e.theta2 > 4
      h == TLCEval(IF high THEN HighWeights(e, c) ELSE <<>>)
      small(k) == high /\ f[k][1] < 200
      err(k) == IF small(k) THEN h[k]
                ELSE IF high THEN h[k] \div 50 + 20 * e.theta2 ELSE 6 * f[k][1] + 40 * f[k][2]
      w(k) == IF high THEN h[k] ELSE f[k][1] * f[k][2]
  IN IF Border(e, c) THEN {Stay}
     ELSE IF DeadEnd(e, c)
     THEN IF Deepest(e, c) = {Stay} THEN {Stay} ELSE Deepest(e, c) \ {Stay}
     ELSE {k \in Support(e, c) : small(k) \/ \A j \in Dirs : w(k) + err(k) >= w(j) - err(j)}

MoveSet(e, c) == IF e.sd THEN Best(e, c) ELSE Support(e, c)

(* where a particle may be after one step (itself: it did not move)          *)
Succ(e, c) == IF Frozen(e, c) THEN {c} ELSE {Nb(c, k) : k \in MoveSet(e, c)}

----------------------------------------------------------------------------
(* Travel time of the step c -> Nb(c,k), in ms: without diffusion the path   *)
(* projected on the local flow direction times the mean slowness of the two  *)
(* cells; diffusion stretches or shrinks it by at most dc/2 percent.         *)
Along(e, c, k) == VDown(e, c) * DI(k) + VRight(e, c) * DJ(k)

BaseTime(e, c, k) ==
  LET so == Speed(e, c)
      sn == Speed(e, Nb(c, k))
  IN IF so = 0
     THEN \* still water drifts towards the lower right, immeasurably slowly
          IF DI(k) + DJ(k) > 0 THEN HUGE ELSE 0
     ELSE IF Along(e, c, k) <= 0 THEN 0
     ELSE IF sn = 0 THEN HUGE
     ELSE LET a == ScaledDiv(Along(e, c, k), so, 7)  \* 1e5 * projection/dx
              f(s) == ScaledDiv(5 * e.dx * a, s, 0)
          IN Min2(HUGE, f(so) + f(sn))
(* 10 dx [cm] * (a/1e5) * (100/s) / 2 [s] = 5 dx a / s [ms]                  *)

(* a speed that is not a whole number of 1/100 cm/s is rounded down          *)
Rounded(e, c) == LET s == Speed(e, c)
                 IN IF SqSum(e, c) <= 200000 THEN s * s # SqSum(e, c) * 10000
                    ELSE (s \div 10) * (s \div 10) # SqSum(e, c) * 100
Inexact(e, c, b) == IF Speed(e, c) > 0 /\ Rounded(e, c)
                    THEN (IF SqSum(e, c) <= 200000 THEN 1 ELSE 10) * (b \div Speed(e, c) + 1) ELSE 0
Slack(e, c, k, b) == (b \div 2000) + 3 + 2 * Inexact(e, c, b) + Inexact(e, Nb(c, k), b)
                     + (10 * e.dx) \div Max2(1, Min2(Speed(e, c), Speed(e, Nb(c, k))))
(* half of dc percent of b                                                   *)
HalfOf(e, b) == IF b < 10000000 THEN (b * e.dc) \div 200 ELSE (b \div 200) * e.dc
(* dorado floors both velocity components at 1e-8 m/s; in slow water that    *)
(* turns the flow by a noticeable angle.  e.slow, where present: how many    *)
(* times smaller the velocities (and the cells) were that dorado was given   *)
Floor(e, c, k) == LET s == Min2(Speed(e, c), Speed(e, Nb(c, k)))
                      f == IF "slow" \in DOMAIN e THEN e.slow ELSE 1
                  IN IF s = 0 THEN 0 ELSE 1 + ((e.dx * f) \div s)
TimeLo(e, c, k) == LET b == BaseTime(e, c, k)
  IN IF b >= HUGE THEN HUGE
     ELSE Max2(0, b - HalfOf(e, b) - 1 - (IF b < 10000000 THEN 0 ELSE e.dc)
                    - Slack(e, c, k, b) - Floor(e, c, k))
TimeHi(e, c, k) == LET b == BaseTime(e, c, k)
  IN IF b >= HUGE THEN HUGE
     ELSE Min2(HUGE, b + HalfOf(e, b) + 1 + (IF b < 10000000 THEN 0 ELSE e.dc)
          + Slack(e, c, k, b) + Floor(e, c, k)
          \* a step straight across the flow into still water: dorado floors
          \* velocities at 1e-8 m/s, which leaves dx/2/speed instead of 0
          + (IF Speed(e, Nb(c, k)) = 0 /\ ~Diag(k) /\ Along(e, c, k) = 0
                /\ Speed(e, c) > 0
             THEN LET r == (500000 \div Speed(e, c)) * e.dx + 2 * e.dx
                  IN r + (r \div 200) * e.dc
             ELSE 0))

(* recorded travel times before and after one step                           *)
TimeOK(e, c, k, t, t2) ==
  IF t2 = BADT THEN FALSE
  ELSE IF t >= HUGE THEN t2 >= HUGE
  ELSE IF t2 >= HUGE THEN TimeHi(e, c, k) >= HUGE - Max2(t, 0)
  ELSE t2 - t >= TimeLo(e, c, k) - 1 /\ t2 - t <= TimeHi(e, c, k) + 1

----------------------------------------------------------------------------
(* Running to a target time T: the step that is expected to last as long as  *)
(* the latest one (at least 0.1 s) is only taken if it brings the particle   *)
(* closer to T.  `slack` absorbs the rounding of the recorder.               *)
NextDt(ts, n) == IF n > 1 THEN Max2(100, ts[n] - ts[n - 1]) ELSE 100
Ahead(ts, n, T) == (ts[n] - T) + (NextDt(ts, n) \div 2)
MayContinue(ts, n, T)  == Ahead(ts, n, T) <= 3
MustContinue(ts, n, T) == Ahead(ts, n, T) < -3

(* Values of tracked variables                                               *)
NONE == -77777
VarNames == {"depth", "stage", "qx", "qy", "u", "v", "roi_flag"}
Tracked(e) == {e.vars[i] : i \in DOMAIN e.vars}
              \cup (IF Given(e.roi) THEN {"roi_flag"} ELSE {})
VarVal(e, v, c) ==
  CASE v = "depth" -> Depth(e, c)
    [] v = "stage" -> Stage(e, c)
    [] v = "qx" -> QDown(e, c)
    [] v = "qy" -> QRight(e, c)
    [] v = "u" -> VDown(e, c)
    [] v = "v" -> VRight(e, c)
    [] v = "roi_flag" -> IF Given(e.roi) /\ At(e.roi, c) = 1 THEN 1 ELSE 0
VarOK(e, v, c, val) ==
  LET x == VarVal(e, v, c)
  IN IF x = NAN \/ v = "roi_flag" THEN val = x
     ELSE val # NAN /\ val # NONE /\ Abs(val - x) <= 1 + (Abs(x) \div 2000)
=============================================================================
