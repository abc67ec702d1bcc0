SPECIFICATION Spec
INVARIANTS SumsToOne OnlyAdmissible NoDryTarget Mirror Transpose OtherConvention ScaleFree ThetaZero GammaZero GammaOne BestIsBest TiesAreBest
CHECK_DEADLOCK FALSE
