SPECIFICATION Spec
CONSTANTS Depth = 4
          Ks = {1}
          NInst = 3
INVARIANTS LastSet EmitHist
