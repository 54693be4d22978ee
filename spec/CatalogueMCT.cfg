SPECIFICATION Spec
CONSTANTS NS = {"a", "b"}
 TS = {0, 3, 7}
 MaxLen = 4
INVARIANTS OneEach OrderOfFirstUse
PROPERTY Stable
CHECK_DEADLOCK FALSE
