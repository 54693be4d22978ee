SPECIFICATION Spec
CONSTANTS MaxLen = 13  MaxVal = 3  FixBoth = TRUE
INVARIANTS Ordered Kept Ends
VIEW View
CHECK_DEADLOCK FALSE
