SPECIFICATION Spec
CONSTANTS
  Capacity = 4
  MaxPages = 7
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK FALSE
