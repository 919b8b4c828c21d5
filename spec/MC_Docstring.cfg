SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Online RoundTrip Indifferent Apart KeptOnce Dump
