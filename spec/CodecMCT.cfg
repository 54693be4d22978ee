SPECIFICATION Spec
CONSTANTS Deep = TRUE  Emit = TRUE
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
