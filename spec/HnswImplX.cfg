SPECIFICATION Spec
CONSTANTS
  Coords = {0, 1, 3}
  MaxLevel = 2
  MaxNodes = 4
  M = 5
  EF = 6
  PerLevel = TRUE
INVARIANTS WellFormed Grows Answers
CHECK_DEADLOCK FALSE
