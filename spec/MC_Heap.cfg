SPECIFICATION Spec
INVARIANTS Alone Separate OneEach Needed Dump
CHECK_DEADLOCK FALSE
