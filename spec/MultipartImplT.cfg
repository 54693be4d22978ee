SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CONSTANTS
    MaxParts = 3
    MaxSize = 4
    Cap = 3
    MaxChunk = 10
    Emit = FALSE
