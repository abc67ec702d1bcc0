----------------------------- MODULE FreqTrace -----------------------------
(* Judges counts of many choices.  A record holds one domain and, per cell,  *)
(* how often each direction was taken out of n tries.                        *)
EXTENDS Freq, Records

RouteCell(e, x) ==
  LET p == TLCEval(Probs(e, x.c))
      n == SumSeq(x.counts)
      frozen == Frozen(e, x.c)
  IN When(x.other > 0, "freq.place", <<x.c, x.other>>)
     \cup UNION { When(IF frozen THEN (k # Stay /\ x.counts[k + 1] > 0)
                       ELSE ~FairCount(n, p[k], x.counts[k + 1]),
                       "freq.prob", <<x.c, k, x.counts[k + 1], n, p[k]>>) : k \in Dirs }

TieCell(e, x) ==
  LET T == Tied(e, x.c)
      n == SumSeq(x.counts)
  IN IF T = {} \/ Frozen(e, x.c) \/ n < 200 THEN {}
     ELSE UNION { When(x.counts[k + 1] < n \div (4 * Cardinality(T)), "steep.ties",
                       <<x.c, k, x.counts>>) : k \in T }
          \cup UNION { When(k \notin T /\ x.counts[k + 1] > 0, "steep.best",
                            <<x.c, k, x.counts>>) : k \in Dirs }

SpreadCell(e, x) ==
  LET b == BaseTime(e, x.c, x.k)
      half == HalfOf(e, b)
      n == Len(x.ts)
  IN IF b < 2000 \/ b >= HUGE \div 2 \/ n < 100 \/ half < 100 THEN {}
     ELSE When(\E i \in 1 .. 4 : Quarter(b, half, x.ts, i) < n \div 20, "time.spread",
               <<x.c, x.k, b, [i \in 1 .. 4 |-> Quarter(b, half, x.ts, i)]>>)
          \cup When(\E a \in 1 .. n : x.ts[a] < b - half - Slack(e, x.c, x.k, b) - 2
                       \/ x.ts[a] > b + half + Slack(e, x.c, x.k, b) + 2, "time.range", <<x.c, x.k, b>>)

(* all durations of a domain taken together reach every twentieth of the     *)
(* range (each counted by its place in the range of its own cell)            *)
Wide(e, x) == LET b == TLCEval(BaseTime(e, x.c, x.k))
              IN b >= 2000 /\ b < HUGE \div 2 /\ HalfOf(e, b) >= 40 * (Slack(e, x.c, x.k, b) + Floor(e, x.c, x.k))
Places(e, x) == LET b == TLCEval(BaseTime(e, x.c, x.k))
                    half == TLCEval(HalfOf(e, b))
                IN [a \in DOMAIN x.ts |-> ScaledDiv(Max2(0, x.ts[a] - (b - half)), half, 1)]
SpreadAll(e, xs) ==
  LET at == TLCEval([i \in DOMAIN xs |-> TLCEval(IF Wide(e, xs[i]) THEN Places(e, xs[i]) ELSE <<>>)])
      n == SumSeq([i \in DOMAIN at |-> Len(at[i])])
      bin(q) == SumSeq([i \in DOMAIN at |->
                  Cardinality({a \in DOMAIN at[i] : Min2(19, at[i][a]) = q})])
      few == {q \in 0 .. 19 : 80 * bin(q) < n}
  IN IF n < 1000 THEN {} ELSE When(few # {}, "time.spread", <<n, few>>)

FreqVerdict(r) ==
  IF r.err # "" THEN {F("freq.error", r.err)}
  ELSE (IF r.kind = "spread" THEN SpreadAll(r.e, r.cells) ELSE {}) \cup UNION { CASE r.kind = "freq" -> RouteCell(r.e, r.cells[i])
                 [] r.kind = "ties" -> TieCell(r.e, r.cells[i])
                 [] r.kind = "spread" -> SpreadCell(r.e, r.cells[i])
             : i \in DOMAIN r.cells }
=============================================================================
