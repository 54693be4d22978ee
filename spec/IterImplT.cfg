SPECIFICATION Spec
CONSTANTS Restore = TRUE
 MaxFan = 3
 MaxLeaf = 3
INVARIANTS Agree Same InPath
CHECK_DEADLOCK FALSE
