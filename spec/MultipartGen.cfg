SPECIFICATION Spec
INVARIANT Right Printed
CONSTANTS
    MaxParts = 2
    MaxSize = 2
    Cap = 3
    MaxChunk = 1
    Emit = TRUE
