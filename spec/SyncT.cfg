SPECIFICATION Spec
CONSTANTS MaxRecs = 4
 MaxFields = 2
 MaxCrashes = 2
 Validate = TRUE
 SkipPresent = TRUE
 KeepOnError = TRUE
INVARIANTS CompleteAfterOk RefusedAtBad Covered Sound
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
