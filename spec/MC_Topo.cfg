SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Once AfterDependencies NeverStuckInVain Agrees Peels Dumped
