SPECIFICATION TSpec
CONSTANTS MaxRecs = 9
 MaxFields = 9
 MaxCrashes = 9
 Validate = TRUE
 SkipPresent = TRUE
 KeepOnError = TRUE
CHECK_DEADLOCK TRUE
