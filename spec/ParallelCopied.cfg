SPECIFICATION Spec
CONSTANT Reseed = FALSE
INVARIANTS Independent
CHECK_DEADLOCK FALSE
