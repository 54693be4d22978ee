SPECIFICATION Spec
CONSTANTS MaxRecs = 4  LeafSizes = {1, 2}  Fans = {2}  Emit = TRUE
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
