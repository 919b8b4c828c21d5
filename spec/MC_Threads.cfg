SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Shared = "own"
 Record = TRUE
INVARIANTS AsAlone Published Cached Tidy Dump
