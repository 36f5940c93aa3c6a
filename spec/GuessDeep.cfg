SPECIFICATION Spec
CONSTANTS Vals <- ValsBig
          Depth = 2
INVARIANTS AllRefused Accepted Same Dynamics Law Starts0 Emit
