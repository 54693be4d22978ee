SPECIFICATION Spec
CONSTANTS MaxLen = 9  MaxVal = 2  FixBoth = TRUE
INVARIANTS Ordered Kept Ends
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
