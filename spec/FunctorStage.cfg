SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS TypeOK LawNeedsDual DualNeedsSym Agrees Emit
