SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- GeoVerdict
CHECK_DEADLOCK FALSE
