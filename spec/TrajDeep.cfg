SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Through Lines Between Emit
