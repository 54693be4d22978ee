SPECIFICATION Spec
CONSTANTS Alphabet = {49, 44, 34, 13}  MaxLen = 7  Emit = TRUE
INVARIANTS Right Again Printed
