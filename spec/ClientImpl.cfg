SPECIFICATION Spec
VIEW View
INVARIANT Excused Complete Awaited
CHECK_DEADLOCK FALSE
CONSTANTS
    Calls = {1, 2, 3}
    Pages = 3
    Loads = 3
    MaxSteps = 14
    MaxFaults = 3
    Forget = TRUE
    Whole = TRUE
    Emit = FALSE
