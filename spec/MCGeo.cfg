SPECIFICATION Spec
INVARIANTS Never Complete AlwaysCan WholeExact Collect
POSTCONDITION Export
CHECK_DEADLOCK FALSE
