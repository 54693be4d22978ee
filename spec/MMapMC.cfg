SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Vals = {1, 2}
INVARIANT CursorInFile
PROPERTY FrameOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
