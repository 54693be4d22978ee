SPECIFICATION Spec
VIEW View
INVARIANT Excused Complete Awaited
CHECK_DEADLOCK FALSE
CONSTANTS
    Calls = {1, 2, 3, 4}
    Pages = 3
    Loads = 3
    MaxSteps = 18
    MaxFaults = 3
    Forget = TRUE
    Whole = TRUE
    Emit = FALSE
