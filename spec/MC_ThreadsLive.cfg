SPECIFICATION Spec
CONSTANTS Shared = "own"
 Record = FALSE
INVARIANTS AsAlone Published Cached Tidy
PROPERTY Ends
