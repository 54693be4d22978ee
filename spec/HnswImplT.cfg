SPECIFICATION Spec
CONSTANTS
  Coords = {0, 1, 3, 4}
  MaxLevel = 1
  MaxNodes = 6
  M = 2
  EF = 2
  PerLevel = TRUE
INVARIANTS WellFormed Grows Answers
CHECK_DEADLOCK FALSE
