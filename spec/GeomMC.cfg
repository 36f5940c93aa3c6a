SPECIFICATION Spec
CONSTANTS Big = FALSE
 Every = 13
INVARIANTS Closed Antisym IsHamilton StdFine ChainRule IsMoved Noether Emit
