SPECIFICATION Spec
CONSTANTS
  EnvSet <- EnvSetDef
  SeedSet <- SeedSetDef
  Targets <- TargetsDef
  Limits <- LimitsDef
  MaxP <- MaxPDef
  MaxLen <- MaxLenDef
INVARIANTS TypeOK Containment Absorbed StaysWet Downhill Monotone TargetRespected Settled ProbsSumToOne SupportIsPositive BestIsSupported
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
