SPECIFICATION Spec
CONSTANTS CodaLen = 1 Small = 4 MaxExtra = 1 Pace = 1 EarlySet = {1, 2, 3, 9, 12, 14, 16} LateSet = {1, 4, 6, 14, 22, 23}
INVARIANTS Unique Faithful OrderIrrelevant
