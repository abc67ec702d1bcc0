SPECIFICATION Spec
INVARIANTS Explains Strict
CHECK_DEADLOCK FALSE
