SPECIFICATION Spec
CONSTANTS NS = {"a", "b"}
 TS = {0, 7}
 MaxLen = 3
INVARIANTS OneEach OrderOfFirstUse
PROPERTY Stable
CHECK_DEADLOCK FALSE
