SPECIFICATION Spec
INVARIANT Right Printed
CONSTANTS
    MaxDocs = 2
    MaxLen = 3
    MaxQ = 3
    Letters <- LettersAB
    Grammings <- Gr4
    Emit = TRUE
