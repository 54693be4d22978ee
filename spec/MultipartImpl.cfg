SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CONSTANTS
    MaxParts = 2
    MaxSize = 4
    Cap = 3
    MaxChunk = 6
    Emit = FALSE
