SPECIFICATION TSpec
INVARIANT CursorInFile
CHECK_DEADLOCK TRUE
