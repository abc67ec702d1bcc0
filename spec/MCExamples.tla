----------------------------- MODULE MCExamples -----------------------------
(* the tolerant rules against the exact ones, over MCRouting's surroundings  *)
EXTENDS MCRouting
X == INSTANCE Examples
C == {<<i, j>> : i \in 1 .. 3, j \in 1 .. 3}
Exact == X!Allowed(e, M, <<0, 0>>) = {Nb(M, k) : k \in Support(e, M)} \/ Frozen(e, M)
Covers == \A t \in {1, 5} : \A u \in {0, 2000} :
            Frozen(e, M) \/ {Nb(M, k) : k \in Support(e, M)} \subseteq X!Allowed(e, M, <<t, u>>)
Laws == half = <<>> => Exact /\ Covers
=============================================================================
