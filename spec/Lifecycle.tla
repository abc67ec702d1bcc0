----------------------------- MODULE Lifecycle -----------------------------
(* The order in which the public calls of a Particles object may be made,    *)
(* for two objects: object 2 is built from its own parameters, from the      *)
(* parameter object 1 was built from, or from the same parameters after      *)
(* object 1 has been used.  TLC enumerates every call sequence up to         *)
(* MaxCalls; each one is replayed on the real code (harness/fam walk) and    *)
(* judged by WalkTrace.  The abstract state (number of particles, whether    *)
(* walk data exist, what is aliased) carries the invariants.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MaxCalls == IF "CALLS" \in DOMAIN IOEnv THEN atoi(IOEnv.CALLS) ELSE 3

Objs == {1, 2}
VARIABLES prog, np, has, fresh
vars == <<prog, np, has, fresh>>

Init == /\ prog \in { <<[op |-> "new", obj |-> 1, share |-> 0],
                        [op |-> "new", obj |-> 2, share |-> s]>> : s \in {0, 1} }
        /\ np = [o \in Objs |-> 0]
        /\ has = [o \in Objs |-> FALSE]
        /\ fresh = [o \in Objs |-> TRUE]

Do(c) == prog' = Append(prog, c)

Other(o) == 3 - o
Prevs(o) == {"none"} \cup
            (IF has[Other(o)] THEN {"live", "json", "bare"} ELSE {}) \cup
            (IF has[o] THEN {"self"} ELSE {})

Gen(o) == \E m \in {"exact", "random"}, pv \in Prevs(o), n \in {0, 2} :
  /\ n = 0 => m = "random"
  /\ Do([op |-> "gen", obj |-> o, n |-> n, method |-> m, prev |-> pv])
  /\ np' = [np EXCEPT ![o] = (IF has[o] THEN @ ELSE 0) + n +
              (CASE pv = "none" -> 0 [] pv = "self" -> np[o] [] OTHER -> np[Other(o)])]
  /\ has' = [has EXCEPT ![o] = TRUE]
  /\ fresh' = [fresh EXCEPT ![o] = FALSE]

Run(o) == \E k \in {"step", "near", "far"} :
  /\ Do([op |-> k, obj |-> o])
  /\ UNCHANGED <<np, has>>
  /\ fresh' = [fresh EXCEPT ![o] = @ /\ ~has[o]]

Clear(o) == /\ Do([op |-> "clear", obj |-> o])
            /\ has' = [has EXCEPT ![o] = FALSE]
            /\ np' = [np EXCEPT ![o] = 0]
            /\ UNCHANGED fresh

Load(o) == /\ fresh[o] /\ has[Other(o)] /\ np[Other(o)] > 0
           /\ \E b \in BOOLEAN : Do([op |-> "load", obj |-> o, bare |-> b])
           /\ has' = [has EXCEPT ![o] = TRUE]
           /\ np' = [np EXCEPT ![o] = np[Other(o)]]
           /\ fresh' = [fresh EXCEPT ![o] = FALSE]

Next == /\ Len(prog) < MaxCalls + 2
        /\ \E o \in Objs : Gen(o) \/ Run(o) \/ Clear(o) \/ Load(o)

Spec == Init /\ [][Next]_vars

CountsMatch == \A o \in Objs : ~has[o] => np[o] = 0
FreshEmpty == \A o \in Objs : fresh[o] => ~has[o]

(* every maximal call sequence is handed to the driver                       *)
Collect == IF Len(prog) = MaxCalls + 2
           THEN TLCSet(42, TLCGet(42) \cup {prog}) ELSE TRUE
ASSUME TLCSet(42, {})
Export == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(42)))
=============================================================================
