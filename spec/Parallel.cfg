SPECIFICATION Spec
CONSTANT Reseed = TRUE
INVARIANTS Complete InOrder Untouched Independent Deterministic
PROPERTY Finishes
CHECK_DEADLOCK FALSE
