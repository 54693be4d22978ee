SPECIFICATION Spec
CONSTANTS Alphabet = {97, 44, 34, 13, 49}  MaxLen = 7  Emit = FALSE
INVARIANTS Right Again
