SPECIFICATION Spec
CONSTANTS Restore = FALSE
 MaxFan = 2
 MaxLeaf = 2
INVARIANTS Agree Same
CHECK_DEADLOCK FALSE
