SPECIFICATION Spec
INVARIANT Right Printed
CONSTANTS
    MaxDocs = 2
    MaxLen = 2
    MaxQ = 2
    Letters <- LettersABS
    Grammings <- Gr3
    Emit = TRUE
