SPECIFICATION Spec
CONSTANTS
  PlanSet <- TermPlans
  Const0 <- MCConst0
  MaxAttempts = 100000
INVARIANTS
  OnlyNamedChange EndsAtTarget CoversRequested RetryBetween GivesUpOnlyIf NoSilentFailure ManualAllConverged
  UnknownRejected WarmStart Bookkeeping GridOnce
PROPERTIES AppendOnly Terminates
