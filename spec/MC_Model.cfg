SPECIFICATION Spec
INVARIANTS Typed Represents NothingLost OverlapOnlyByChoice NoCoercion UnknownRefused FirstMatch TagOrder
CHECK_DEADLOCK FALSE
