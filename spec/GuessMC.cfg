SPECIFICATION Spec
CONSTANTS Vals <- ValsSmall
          Depth = 2
INVARIANTS AllRefused Accepted Same Dynamics Law Starts0 Emit
