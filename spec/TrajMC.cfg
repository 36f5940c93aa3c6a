SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Through Lines Between Emit
