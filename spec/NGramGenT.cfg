SPECIFICATION Spec
CONSTANTS Alphabet = {97, 66, 49, 32, 45, 769, 8364}  MaxLen = 5  Emit = TRUE
INVARIANTS Right Printed
