SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OwnAccepted Conforming UnionIsAny Members_ Atomic
