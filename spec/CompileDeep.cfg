SPECIFICATION Spec
CONSTANTS MaxArgs = 4 MaxSize = 2 Variants = 6 Every = 5
INVARIANTS Regrouped Shaped Conjugate Emit
