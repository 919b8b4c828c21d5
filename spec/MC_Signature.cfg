SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AsSaid Dump
