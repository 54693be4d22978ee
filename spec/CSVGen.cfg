SPECIFICATION Spec
CONSTANTS Alphabet = {97, 44, 34, 13}  MaxLen = 5  Emit = TRUE
INVARIANTS Right Again Printed
