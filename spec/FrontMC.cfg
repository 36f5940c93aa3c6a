SPECIFICATION Spec
CONSTANTS MaxOps = 1 MaxGood = 1 Random = FALSE
INVARIANTS Stable Irrelevant
