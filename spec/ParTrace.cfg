SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- ParVerdict
CHECK_DEADLOCK FALSE
