SPECIFICATION TSpec
CHECK_DEADLOCK TRUE
