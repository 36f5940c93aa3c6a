SPECIFICATION Spec
CONSTANTS NMax = 5
 Zs <- ZsBig
 Hs = {1, 2}
 Every = 211
INVARIANTS IsSpline Consistent Emit
