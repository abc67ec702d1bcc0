SPECIFICATION Spec
INVARIANTS ClosedForm Bounded SharedOut Additive Outside StateLaws NourishLaws Collect
POSTCONDITION Export
CHECK_DEADLOCK FALSE
