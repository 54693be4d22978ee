SPECIFICATION Spec
CONSTANTS Alphabet = {97, 44, 34, 13}  MaxLen = 9  Emit = FALSE
INVARIANTS Right Again
