SPECIFICATION Spec
CONSTANTS NMax = 4
 Zs <- ZsSmall
 Hs = {1, 2}
 Every = 97
INVARIANTS IsSpline Consistent Emit
