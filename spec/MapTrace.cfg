SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- MapVerdict
CHECK_DEADLOCK FALSE
