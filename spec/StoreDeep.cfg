SPECIFICATION Spec
CONSTANTS MaxOps = 5 Files = {"a.beluga", "data.beluga"} PartSets <- PartsFew Whats = {"y", "append", "ocp"}
PROPERTIES FilesStable Separate RoundTrip
