SPECIFICATION SpecAll
CONSTANTS Depth = 4
          Ks <- KsSmall
          NInst = 2
INVARIANTS AllCorrect EmitInst
