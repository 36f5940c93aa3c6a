SPECIFICATION Spec
CONSTANTS MaxOps = 16 Levels = {0, 5, 10, 15, 20, 30, 40, 60} Names = {"a.log", "b.log", "beluga.log"} Says = {"logger", "name", "child"}
