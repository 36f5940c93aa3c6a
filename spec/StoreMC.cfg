SPECIFICATION Spec
CONSTANTS MaxOps = 4 Files = {"a.beluga", "data.beluga"} PartSets <- PartsFew Whats = {"y", "append", "ocp"}
PROPERTIES FilesStable Separate RoundTrip
