SPECIFICATION Spec
INVARIANT Right
CONSTANTS
    MaxDocs = 3
    MaxLen = 2
    MaxQ = 3
    Letters <- LettersABS
    Grammings <- Gr3
    Emit = FALSE
