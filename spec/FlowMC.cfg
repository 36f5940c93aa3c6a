SPECIFICATION Spec
CONSTANTS Vals <- ValsSmall
          Legs <- LegsSmall
          Depth = 3
INVARIANTS Group Back Additive Meshes Emit
