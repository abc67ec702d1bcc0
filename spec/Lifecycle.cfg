SPECIFICATION Spec
INVARIANTS CountsMatch FreshEmpty Collect
POSTCONDITION Export
CHECK_DEADLOCK FALSE
