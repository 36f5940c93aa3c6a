SPECIFICATION Spec
CONSTANTS CodaLen = 4 Small = 0 MaxExtra = 8 Pace = 2 EarlySet = {} LateSet = {}
INVARIANTS Unique
