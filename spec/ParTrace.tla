------------------------------ MODULE ParTrace ------------------------------
(* Judges recorded calls of parallel_routing and combine_result.             *)
EXTENDS Walks, Records

Own(S) == {F(f.clause, <<f.p, f.info>>) : f \in S}

(* entries whose duration diffusion makes unpredictable                      *)
Noisy(e, w, p) == Cardinality({ j \in 2 .. Len(w.x[p]) :
     LET c == <<w.x[p][j - 1], w.y[p][j - 1]>>
         d == <<w.x[p][j], w.y[p][j]>>
     IN /\ Inside(e, c) /\ Inside(e, d) /\ Adjacent(c, d)
        /\ w.t[p][j] < HUGE \div 2
        /\ e.dc >= 5            \* the bounds are wider than the spread
        /\ TimeHi(e, c, DirOf(c, d)) - TimeLo(e, c, DirOf(c, d))
             > 100 + (TimeLo(e, c, DirOf(c, d)) \div 20) })
Block(r, b) == ((b - 1) * r.n + 1) .. (b * r.n)
NoisySteps(r, b) == SumSeq([i \in 1 .. r.n |-> Noisy(r.e, r.w, (b - 1) * r.n + i)])
SameBlock(r, a, b) ==
  \A i \in 1 .. r.n : LET p == (a - 1) * r.n + i
                          q == (b - 1) * r.n + i
                      IN r.w.x[p] = r.w.x[q] /\ r.w.y[p] = r.w.y[q] /\ r.w.t[p] = r.w.t[q]

ParFails(r) ==
  IF r.err # "" THEN {F("par.error", r.err)}
  ELSE When(~r.kept, "par.object", "the particle object was changed")
  \cup When(~r.keptargs, "par.args", "the seed locations were changed")
  \cup When(r.w # r.again, "par.repeat", "same seed, another result")
  \cup IF IsNone(r.w) THEN {F("par.count", 0)}
       ELSE IF ~Sizes(r.w) \/ (r.before = 0 /\ Len(r.w.x) # r.cores * r.n)
       THEN {F("par.count", <<Len(r.w.x), r.cores, r.n>>)}
       ELSE IF \E p \in 1 .. NP(r.w) : ~Aligned(r.w, p) \/ Len(r.w.x[p]) = 0
       THEN {F("par.aligned", 0)}
       ELSE LET W == 1 .. NP(r.w) IN
            UNION { Own(WholeWalk(r.e, r.w, p)) : p \in W }
            \cup (IF r.before # 0 THEN {} ELSE
                  UNION { Own(FullLength(r.e, r.w, p, r.iters))
                     \cup When(r.w.x[p][1] \notin SeqSet(r.xs) \/ r.w.y[p][1] \notin SeqSet(r.ys)
                               \/ r.w.t[p][1] # 0, "par.start", p)
                   : p \in W }
                  \cup UNION { When(/\ a < b
                                    /\ NoisySteps(r, a) >= 5
                                    /\ SameBlock(r, a, b), "par.copies", <<a, b>>)
                             : a \in 1 .. r.cores, b \in 1 .. r.cores })

RECURSIVE CatAll(_, _)
CatAll(s, n) == IF n = 0 THEN <<>> ELSE CatAll(s, n - 1) \o s[n]
CombineFails(r) ==
  IF r.err # "" THEN {F("combine.error", r.err)}
  ELSE When(~r.kept, "combine.input", "input results were changed")
  \cup When(r.keys # r.outkeys, "combine.keys", r.outkeys)
  \cup UNION { When(r.keys = r.outkeys /\
                    r.out[k] # CatAll([i \in DOMAIN r.parts |-> r.parts[i][k]], Len(r.parts)),
                    "combine.order", k) : k \in DOMAIN r.keys }

ParVerdict(r) == CASE r.kind = "par" -> ParFails(r)
                   [] r.kind = "combine" -> CombineFails(r)
=============================================================================
