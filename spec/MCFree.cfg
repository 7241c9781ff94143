SPECIFICATION Spec
INVARIANTS Rules Export
CHECK_DEADLOCK FALSE
