SPECIFICATION Spec
CONSTANTS Restore = TRUE
 MaxFan = 3
 MaxLeaf = 2
INVARIANTS Agree Same InPath
CHECK_DEADLOCK FALSE
