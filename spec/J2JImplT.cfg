SPECIFICATION Spec
CONSTANTS MaxRuns = 3  Emit = FALSE
INVARIANTS Right Untouched InputKept
