SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Stable ReadsBack Notations WritesAliases NamesAgree NamesRefused OneForm AnnotationsIrrelevant ThereAndBack RewrapKeeps Dumped
