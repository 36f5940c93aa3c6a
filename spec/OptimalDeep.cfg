SPECIFICATION Spec
CONSTANTS Ks <- KsBig
          Ts = {1, 2, 3}
INVARIANTS Optimal Emit
