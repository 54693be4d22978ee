SPECIFICATION XSpec
CHECK_DEADLOCK TRUE
