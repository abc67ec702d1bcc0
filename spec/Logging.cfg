SPECIFICATION Spec
INVARIANTS OneHandler KnownLevel Collect
PROPERTIES KeepsHandler RefusalChangesNothing
POSTCONDITION Export
CHECK_DEADLOCK FALSE
