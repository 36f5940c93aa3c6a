SPECIFICATION Spec
CONSTANTS Depth = 7
INVARIANTS TypeOK LawNeedsDual DualNeedsSym Agrees Emit
