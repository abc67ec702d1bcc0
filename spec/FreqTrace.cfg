SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- FreqVerdict
CHECK_DEADLOCK FALSE
