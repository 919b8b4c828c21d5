SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Confluent NoneLost Settled Dump
