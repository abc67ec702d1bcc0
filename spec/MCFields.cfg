SPECIFICATION Spec
INVARIANTS DerivedIsTrue Collect
PROPERTY StaysSufficient
POSTCONDITION Export
CHECK_DEADLOCK FALSE
