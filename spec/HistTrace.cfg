SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- HistVerdict
CHECK_DEADLOCK FALSE
