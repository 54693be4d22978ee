SPECIFICATION Spec
CONSTANTS
  N = 9
  Order = 2
  Crashes = 2
INVARIANTS Quiet NoLeak Fits FreeUnused Crashed
CHECK_DEADLOCK FALSE
