SPECIFICATION Spec
CONSTANTS Dims <- DimsSmall
          Moves <- MovesSmall
          Depth = 2
INVARIANTS Transparent UnitsMatch Covariant Emit
