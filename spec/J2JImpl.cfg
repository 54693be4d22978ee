SPECIFICATION Spec
CONSTANTS MaxRuns = 2  Emit = FALSE
INVARIANTS Right Untouched InputKept
PROPERTY Ends
