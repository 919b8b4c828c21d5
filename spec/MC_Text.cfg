SPECIFICATION Spec
INVARIANTS NothingLost ReadsBack Canonical OnlyNaiveRefused
CHECK_DEADLOCK FALSE
