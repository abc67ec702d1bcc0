------------------------------ MODULE Records ------------------------------
(* Skeleton of the record checking specifications: the behaviour walks over  *)
(* a recording of calls of the real code (an explicit sequence of records)   *)
(* and collects, for every record, the clauses of the specification it       *)
(* contradicts.  A module that EXTENDS this one defines its own RecFails and *)
(* substitutes it for the constant operator Verdict in its configuration.    *)
EXTENDS Num, TLC, Json, IOUtils, SequencesExt

CONSTANT Verdict(_)

Trace == JsonDeserialize(IOEnv.TRACE)
Recs == Trace.recs

VARIABLES pos, fails
vars == <<pos, fails>>

F(clause, info) == [clause |-> clause, info |-> info]
When(cond, clause, info) == IF cond THEN {F(clause, info)} ELSE {}
Tag(S, n) == {[rec |-> n, clause |-> f.clause, info |-> ToString(f.info)] : f \in S}

Init == pos = 0 /\ fails = {}
Next == /\ pos < Len(Recs)
        /\ pos' = pos + 1
        /\ fails' = fails \cup Tag(Verdict(Recs[pos + 1]), pos + 1)
Spec == Init /\ [][Next]_vars

Done == pos = Len(Recs) =>
          JsonSerialize(IOEnv.OUT, [fails |-> SetToSeq(fails), n |-> Len(Recs)])
=============================================================================
