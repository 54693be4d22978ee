SPECIFICATION Spec
CONSTANTS Deep = FALSE  Emit = TRUE
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE
