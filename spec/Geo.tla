-------------------------------- MODULE Geo --------------------------------
(* Coordinates, gridding of scattered points, flux proportional seeding,     *)
(* exposure thresholds and the median absolute deviation filter.             *)
EXTENDS Num, TLC, SequencesExt

(* ------------------------------------------------------------ coordinates *)
(* A raster with L rows whose origin is <<xo, yo>>: cell <<r, c>> has the    *)
(* coordinates below; a coordinate belongs to the cell less than half a cell *)
(* away in both directions.                                                  *)
XOf(cell, xo, cs) == xo + cell[2] * cs
YOf(cell, yo, cs, L) == yo + (L - cell[1]) * cs
Belongs(cell, x, y, xo, yo, cs, L) ==
  /\ 2 * Abs(x - XOf(cell, xo, cs)) < cs
  /\ 2 * Abs(y - YOf(cell, yo, cs, L)) < cs

(* ------------------------------------------- flux proportional seeding     *)
Size(q) == [i \in DOMAIN q |-> Abs(q[i])]
(* quotient and remainder of a * N by T, without the large product           *)
QuotOf(a, N, T) == a * (N \div T) + ((a * (N % T)) \div T)
RestOf(a, N, T) == (a * (N % T)) % T
FloorShare(q, N, i) == QuotOf(Abs(q[i]), N, SumSeq(Size(q)))
Remainder(q, N, i) == RestOf(Abs(q[i]), N, SumSeq(Size(q)))
Floors(q, N) == [i \in DOMAIN q |-> FloorShare(q, N, i)]
(* one of the results the largest remainder rule allows                      *)
FairCounts(q, N, out) ==
  LET total == TLCEval(SumSeq(Size(q)))
      fl == TLCEval([i \in DOMAIN q |-> QuotOf(Abs(q[i]), N, total)])
      rm == TLCEval([i \in DOMAIN q |-> RestOf(Abs(q[i]), N, total)])
      up == TLCEval({rm[i] : i \in {j \in DOMAIN q : out[j] > fl[j]}})
      down == TLCEval({rm[i] : i \in {j \in DOMAIN q : out[j] = fl[j]}})
  IN /\ Len(out) = Len(q)
     /\ SumSeq(out) = N
     /\ \A i \in DOMAIN q : out[i] \in {fl[i], fl[i] + (IF rm[i] > 0 THEN 1 ELSE 0)}
     /\ up # {} /\ down # {} => MinOf(up) >= MaxOf(down)

(* --------------------------------------------------------------- gridding *)
Ceil(a, b) == (a + b - 1) \div b
Xs(pts) == {pts[i][1] : i \in DOMAIN pts}
Ys(pts) == {pts[i][2] : i \in DOMAIN pts}
NCols(pts, cs) == Ceil(MaxOf(Xs(pts)) - MinOf(Xs(pts)), cs) + 1
NRows(pts, cs) == Ceil(MaxOf(Ys(pts)) - MinOf(Ys(pts)), cs) + 1
(* position of raster cell (row r from the north, column c), 0-based         *)
GridX(pts, cs, c) == MinOf(Xs(pts)) + c * cs
GridY(pts, cs, r) == MinOf(Ys(pts)) + (NRows(pts, cs) - 1 - r) * cs
Dist2(pts, i, x, y) == (pts[i][1] - x) * (pts[i][1] - x) + (pts[i][2] - y) * (pts[i][2] - y)

NearestValues(pts, q, x, y) ==
  LET m == MinOf({Dist2(pts, i, x, y) : i \in DOMAIN pts})
  IN {q[i] : i \in {j \in DOMAIN pts : Dist2(pts, j, x, y) = m}}

(* inverse distance in 1/31623                                               *)
Inv(d2) == ISqrt(1000000000 \div d2)
(* the interval of inverse distance means over the k nearest points (it is   *)
(* one value unless points are equally far), times 1000                      *)
IdwRange(pts, q, k, x, y) ==
  LET srt == SortSeq([i \in DOMAIN pts |-> <<Dist2(pts, i, x, y), q[i]>>],
                     LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
      kth == srt[k][1]
      sure == SelectSeq(srt, LAMBDA a : a[1] < kth)
      tied == SelectSeq(srt, LAMBDA a : a[1] = kth)
      m == k - Len(sure)
      S(f(_)) == SumSeq([i \in DOMAIN sure |-> f(i)])
      num == S(LAMBDA i : Inv(sure[i][1]) * sure[i][2])
      den == S(LAMBDA i : Inv(sure[i][1])) + m * Inv(kth)
      low == SumSeq([i \in 1 .. m |-> tied[i][2]])
      high == SumSeq([i \in 1 .. m |-> tied[Len(tied) - m + i][2]])
  IN IF srt[1][1] = 0 THEN <<1000 * srt[1][2], 1000 * srt[1][2]>>
     ELSE <<ScaledDiv(num + Inv(kth) * low, den, 3),
            ScaledDiv(num + Inv(kth) * high, den, 3) + 1>>

(* even-odd rule; polygon vertices doubled and odd, so never hit by the ray  *)
InPolygon(poly, x2, y2) ==
  LET n == Len(poly)
      nxt(i) == poly[(i % n) + 1]
      crosses(i) ==
        LET a == poly[i]
            b == nxt(i)
        IN /\ (a[2] > y2) # (b[2] > y2)
           /\ LET s == (x2 - a[1]) * (b[2] - a[2]) - (b[1] - a[1]) * (y2 - a[2])
              IN IF b[2] > a[2] THEN s < 0 ELSE s > 0
  IN Cardinality({i \in 1 .. n : crosses(i)}) % 2 = 1

(* ------------------------------------------------------------- thresholds *)
(* normal distribution function, z in 1/1000, value in 1/1000000             *)
PhiTable == 
  <<500000, 519939, 539828, 559618, 579260, 598706, 617911, 636831, 655422,
  673645, 691462, 708840, 725747, 742154, 758036, 773373, 788145, 802337,
  815940, 828944, 841345, 853141, 864334, 874928, 884930, 894350, 903200,
  911492, 919243, 926471, 933193, 939429, 945201, 950529, 955435, 959941,
  964070, 967843, 971283, 974412, 977250, 979818, 982136, 984222, 986097,
  987776, 989276, 990613, 991802, 992857, 993790, 994614, 995339, 995975,
  996533, 997020, 997445, 997814, 998134, 998411, 998650, 998856, 999032,
  999184, 999313, 999423, 999517, 999596, 999663, 999720, 999767, 999807,
  999841, 999869, 999892, 999912, 999928, 999941, 999952, 999961, 999968,
  999974, 999979, 999983, 999987, 999989, 999991, 999993, 999995, 999996,
  999997, 999997, 999998, 999998, 999999, 999999, 999999, 999999, 1000000,
  1000000, 1000000>>
PhiPos(z) == IF z >= 5000 THEN 1000000
             ELSE LET i == (z \div 50) + 1
                  IN PhiTable[i] + ((PhiTable[i + 1] - PhiTable[i]) * (z % 50)) \div 50
Phi(z) == IF z >= 0 THEN PhiPos(z) ELSE 1000000 - PhiPos(-z)
(* n^(-1/5) in 1/10000 *)
ScottTable ==
  <<10000, 8706, 8027, 7579, 7248, 6988, 6776, 6598, 6444, 6310, 6190, 6084,
  5987, 5899, 5818, 5743, 5674, 5610, 5549, 5493, 5439, 5389, 5341, 5296,
  5253, 5212, 5173, 5135, 5099, 5065, 5032, 5000, 4969, 4940, 4911, 4884,
  4857, 4831, 4806, 4782, 4758, 4735, 4713, 4691, 4670, 4650, 4630, 4611,
  4592, 4573, 4555, 4537, 4520, 4503, 4487, 4471, 4455, 4439, 4424, 4409,
  4395, 4380, 4366, 4353, 4339, 4326, 4313, 4300, 4288, 4275, 4263, 4251,
  4240, 4228, 4217, 4206, 4195, 4184, 4173, 4163, 4152, 4142, 4132, 4122,
  4113, 4103, 4094, 4084, 4075, 4066, 4057, 4048, 4039, 4031, 4022, 4014,
  4005, 3997, 3989, 3981, 3973, 3965, 3958, 3950, 3942, 3935, 3928, 3920,
  3913, 3906, 3899, 3892, 3885, 3878, 3871, 3865, 3858, 3851, 3845, 3839,
  3832, 3826, 3820, 3813, 3807, 3801, 3795, 3789, 3783, 3778, 3772, 3766,
  3760, 3755, 3749, 3744, 3738, 3733, 3727, 3722, 3717, 3711, 3706, 3701,
  3696, 3691, 3686, 3681, 3676, 3671, 3666, 3661, 3656, 3652, 3647, 3642,
  3638, 3633, 3628, 3624, 3619, 3615, 3610, 3606, 3602, 3597, 3593, 3589,
  3584, 3580, 3576, 3572, 3568, 3564, 3560, 3555, 3551, 3547, 3543, 3540,
  3536, 3532, 3528, 3524, 3520, 3516, 3513, 3509, 3505, 3501, 3498, 3494,
  3491, 3487, 3483, 3480, 3476, 3473, 3469, 3466, 3462, 3459, 3455, 3452,
  3449, 3445, 3442, 3439, 3435, 3432, 3429, 3426, 3422, 3419, 3416, 3413,
  3410, 3407, 3403, 3400, 3397, 3394, 3391, 3388, 3385, 3382, 3379, 3376,
  3373, 3370, 3367, 3364, 3361, 3359, 3356, 3353, 3350, 3347, 3344, 3342,
  3339, 3336, 3333, 3331, 3328, 3325, 3322, 3320, 3317, 3314, 3312, 3309,
  3307, 3304, 3301, 3299, 3296, 3294, 3291, 3289, 3286, 3284, 3281, 3279,
  3276, 3274, 3271, 3269, 3266, 3264, 3261, 3259, 3257, 3254, 3252, 3250,
  3247, 3245, 3242, 3240, 3238, 3236, 3233, 3231, 3229, 3226, 3224, 3222,
  3220, 3218, 3215, 3213, 3211, 3209, 3207, 3204, 3202, 3200, 3198, 3196,
  3194, 3192, 3189, 3187, 3185, 3183, 3181, 3179, 3177, 3175, 3173, 3171,
  3169, 3167, 3165, 3163, 3161, 3159, 3157, 3155, 3153, 3151, 3149, 3147,
  3145, 3143, 3141, 3139, 3137, 3135, 3134, 3132, 3130, 3128, 3126, 3124,
  3122, 3120, 3119, 3117, 3115, 3113, 3111, 3109, 3108, 3106, 3104, 3102,
  3101, 3099, 3097, 3095, 3093, 3092, 3090, 3088, 3087, 3085, 3083, 3081,
  3080, 3078, 3076, 3075, 3073, 3071, 3069, 3068, 3066, 3065, 3063, 3061,
  3060, 3058, 3056, 3055, 3053, 3051, 3050, 3048, 3047, 3045, 3043, 3042,
  3040, 3039, 3037, 3036, 3034, 3032, 3031, 3029, 3028, 3026, 3025, 3023,
  3022, 3020, 3019, 3017>>

Usable(s) == SelectSeq(s, LAMBDA a : a # 0 /\ a # NAN)
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s})
(* band width of the kernel density, 1/1000 of the data unit                 *)
Bandwidth(s) ==
  LET n == Len(s)
      t == SumSeq(s)
      ss == SumSeq([i \in 1 .. n |-> (n * s[i] - t) * (n * s[i] - t)])
      mean10 == (10 * t) \div n
      many == SumSeq([i \in 1 .. n |-> (10 * s[i] - mean10) * (10 * s[i] - mean10)])
      std100 == IF n <= 60 THEN ISqrt(ScaledDiv(ss, n * n * (n - 1), 4))
                ELSE ISqrt(ScaledDiv(many, n - 1, 2))
  IN Max2(1, (std100 * ScottTable[n]) \div 1000)
(* fraction (1/10000) of the density's mass between the least and the        *)
(* greatest value that lies below T [1/1000]                                 *)
MassBelow(s, T) ==
  LET h == Bandwidth(s)
      lo == MinOf({s[i] : i \in DOMAIN s}) * 1000
      hi == MaxOf({s[i] : i \in DOMAIN s}) * 1000
      z(a) == IF Abs(a) > 1000 * h THEN 6000 * Sgn(a)
              ELSE IF Abs(a) > 2000000 THEN (a \div h) * 1000 ELSE (a * 1000) \div h
      m(a) == SumSeq([i \in DOMAIN s |-> Phi(z(a - s[i] * 1000)) \div 10])
  IN Frac(Max2(0, m(T) - m(lo)), Max2(1, m(hi) - m(lo)))

(* ------------------------------------------------------------- MAD filter *)
Median2(s) ==
  LET t == SortSeq(s, LAMBDA a, b : a < b)
      n == Len(t)
  IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[(n \div 2) + 1]
(* the defined values in the window around <<i, j>> (1-based)                *)
Window(g, i, j, size) ==
  LET h == size \div 2
      rows == Max2(1, i - h) .. Min2(Len(g), i + h)
      cols == Max2(1, j - h) .. Min2(Len(g[1]), j + h)
      all == FlattenSeq([a \in 1 .. Cardinality(rows) |->
               [b \in 1 .. Cardinality(cols) |-> g[MinOf(rows) + a - 1][MinOf(cols) + b - 1]]])
  IN SelectSeq(all, LAMBDA v : v # NAN)
Mad4(win) == LET m == Median2(win)
             IN Median2([i \in DOMAIN win |-> Abs(2 * win[i] - m)])
(* thr in tenths.  kept(slack): within thr deviations, +- slack              *)
KeptIn(win, thr, slack) == LET m == Median2(win)
  IN SelectSeq(win, LAMBDA v : 20 * Abs(2 * v - m) <= thr * Mad4(win) + slack)
(* filtered value times 1000                                                 *)
Filtered1000(g, i, j, size, thr) ==
  IF g[i][j] = NAN THEN NAN
  ELSE LET w == Window(g, i, j, size)
       IN IF Mad4(w) = 0 THEN 500 * Median2(w)
          ELSE LET k == KeptIn(w, thr, 0)
                   s == SumSeq(k)
               IN IF Len(k) = 0 THEN NAN
                  ELSE Sgn(s) * ScaledDiv(Abs(s), Len(k), 3)
=============================================================================
