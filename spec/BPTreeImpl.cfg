SPECIFICATION Spec
CONSTANTS
  N = 7
  Order = 2
  Crashes = 1
INVARIANTS Quiet NoLeak Fits FreeUnused Crashed
CHECK_DEADLOCK FALSE
