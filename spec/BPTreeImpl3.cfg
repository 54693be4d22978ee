SPECIFICATION Spec
CONSTANTS
  N = 8
  Order = 3
  Crashes = 1
INVARIANTS Quiet NoLeak Fits FreeUnused Crashed
CHECK_DEADLOCK FALSE
