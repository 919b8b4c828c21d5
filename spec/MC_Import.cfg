SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Complete Confluent AClass SameExpanded Back Dump
