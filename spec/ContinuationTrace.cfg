SPECIFICATION TSpec
CONSTANTS
  PlanSet = {}
  Const0 = {}
  MaxAttempts = 0
POSTCONDITION Consumed
