SPECIFICATION Spec
CONSTANTS Vals <- ValsBig
          Legs <- LegsBig
          Depth = 3
INVARIANTS Group Back Additive Meshes Emit
