SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Prefix Fresh Total Transitive Dump
