SPECIFICATION Spec
CONSTANTS Dims <- DimsSmall
          Moves <- MovesBig
          Depth = 2
INVARIANTS Transparent UnitsMatch Covariant Emit
