SPECIFICATION Spec
CONSTANTS MaxLen = 7  MaxRecs = 3  MaxKills = 2
INVARIANTS Sane Printed
CHECK_DEADLOCK FALSE
