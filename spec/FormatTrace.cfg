SPECIFICATION FSpec
CHECK_DEADLOCK TRUE
