SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- LogVerdict
CHECK_DEADLOCK FALSE
