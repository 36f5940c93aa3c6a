SPECIFICATION Spec
CONSTANTS MaxArgs = 4 MaxSize = 2 Variants = 3 Every = 41
INVARIANTS Regrouped Shaped Conjugate Emit
