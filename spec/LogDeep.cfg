SPECIFICATION Spec
CONSTANTS MaxOps = 5 Levels = {0, 20, 60} Names = {"a.log"} Says = {"logger"}
INVARIANTS Once OnlySaid
PROPERTIES Others
