SPECIFICATION Spec
CONSTRAINT Small
INVARIANTS Exact Closed OneEach OnlyReferred Present
PROPERTY Untouched
CHECK_DEADLOCK FALSE
