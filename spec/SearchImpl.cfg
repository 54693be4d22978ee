SPECIFICATION Spec
INVARIANT Right
CONSTANTS
    MaxDocs = 2
    MaxLen = 3
    MaxQ = 2
    Letters <- LettersAB
    Grammings <- Gr3
    Emit = FALSE
