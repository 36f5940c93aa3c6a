SPECIFICATION Spec
CONSTANTS Depth = 2
          MaxWord = 6
INVARIANTS Associative Identity Mirror Powers Emit
PROPERTY Frame
