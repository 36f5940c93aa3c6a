SPECIFICATION Spec
CONSTANTS Big = TRUE
 Every = 17
INVARIANTS Closed Antisym IsHamilton StdFine ChainRule IsMoved Noether Emit
