SPECIFICATION Spec
CONSTANTS Depth = 3
          MaxWord = 8
INVARIANTS Associative Identity Mirror Powers Emit
PROPERTY Frame
