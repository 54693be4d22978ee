SPECIFICATION Spec
CONSTANTS MaxLen = 5  MaxRecs = 3  MaxKills = 2
INVARIANTS Sane Printed
CHECK_DEADLOCK FALSE
