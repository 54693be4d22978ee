SPECIFICATION Spec
CONSTANTS MaxIO = 7
 Answers = {1, 2}
INVARIANTS Reported NeverStuck
CHECK_DEADLOCK FALSE
