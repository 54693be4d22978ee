SPECIFICATION Spec
CONSTANTS MaxRecs = 5  LeafSizes = {1, 2, 3}  Fans = {2, 3}  Emit = TRUE
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
