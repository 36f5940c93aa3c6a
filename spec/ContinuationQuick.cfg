SPECIFICATION Spec
CONSTANTS
  PlanSet <- QuickPlans
  Const0 <- MCConst0
  MaxAttempts = 9
INVARIANTS
  OnlyNamedChange EndsAtTarget CoversRequested RetryBetween GivesUpOnlyIf NoSilentFailure ManualAllConverged
  UnknownRejected WarmStart Bookkeeping GridOnce Emit
PROPERTIES AppendOnly
CONSTRAINT Bounded
