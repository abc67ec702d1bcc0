SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- ExampleVerdict
CHECK_DEADLOCK FALSE
