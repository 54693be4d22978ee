SPECIFICATION Spec
CONSTANTS MaxLen = 11  MaxVal = 2  FixBoth = TRUE
INVARIANTS Ordered Kept Ends
VIEW View
CHECK_DEADLOCK FALSE
