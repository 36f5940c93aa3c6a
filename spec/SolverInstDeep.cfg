SPECIFICATION SpecAll
CONSTANTS Depth = 4
          Ks <- KsBig
          NInst = 2
INVARIANTS AllCorrect EmitInst
