SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- FieldsVerdict
CHECK_DEADLOCK FALSE
