SPECIFICATION Spec
CONSTANTS MaxOps = 7 MaxGood = 4 Random = TRUE
INVARIANTS Stable Irrelevant
