SPECIFICATION Spec
CONSTANTS Ks <- KsSmall
          Ts = {1, 2}
INVARIANTS Optimal Emit
