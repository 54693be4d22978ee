SPECIFICATION Spec
INVARIANT Excused Complete Awaited Printed
CHECK_DEADLOCK FALSE
CONSTANTS
    Calls = {1, 2, 3}
    Pages = 2
    Loads = 2
    MaxSteps = 8
    MaxFaults = 3
    Forget = TRUE
    Whole = TRUE
    Emit = TRUE
