SPECIFICATION Spec
INVARIANTS OneHandler KnownLevel Collect
POSTCONDITION Export
CHECK_DEADLOCK FALSE
