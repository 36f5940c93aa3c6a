SPECIFICATION Spec
CONSTANTS MaxOps = 12 Files = {"a.beluga", "data.beluga", "b c.pkl"} PartSets <- PartsAll Whats = {"y", "const", "meta", "append", "ocp", "bvp"}
