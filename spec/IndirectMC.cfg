SPECIFICATION Spec
INVARIANTS OrderIrrelevant Closed Laws2 RoundTrip Reduction
