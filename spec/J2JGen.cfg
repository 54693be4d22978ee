SPECIFICATION Spec
CONSTANTS MaxRuns = 1  Emit = TRUE
INVARIANTS Right Printed
