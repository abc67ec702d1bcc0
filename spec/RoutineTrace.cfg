SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- RoutineVerdict
CHECK_DEADLOCK FALSE
