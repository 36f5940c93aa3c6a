SPECIFICATION Spec
CONSTANTS
  PlanSet <- DeepPlans
  Const0 <- MCConst0
  MaxAttempts = 14
INVARIANTS
  OnlyNamedChange EndsAtTarget CoversRequested RetryBetween GivesUpOnlyIf NoSilentFailure ManualAllConverged
  UnknownRejected WarmStart Bookkeeping GridOnce Emit
PROPERTIES AppendOnly
CONSTRAINT Bounded
