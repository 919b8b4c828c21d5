SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Closed Accepts AcceptsShape Shaped OptionsInert
