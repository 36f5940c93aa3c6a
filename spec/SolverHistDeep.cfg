SPECIFICATION Spec
CONSTANTS Depth = 5
          Ks = {1}
          NInst = 3
INVARIANTS LastSet EmitHist
