SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Determined Dump
PROPERTY NoTrace
