SPECIFICATION Spec
INVARIANTS AsWritten Rules Export
CHECK_DEADLOCK FALSE
