SPECIFICATION Spec
CONSTANTS MaxOps = 3 Levels = {0, 10, 20, 40, 60} Names = {"a.log"} Says = {"logger"}
INVARIANTS Once OnlySaid
PROPERTIES Others
