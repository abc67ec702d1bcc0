SPECIFICATION Spec
INVARIANT Done
CONSTANT Verdict <- PlotVerdict
CHECK_DEADLOCK FALSE
