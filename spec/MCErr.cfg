SPECIFICATION Spec
INVARIANTS Facts Survives Export
CHECK_DEADLOCK FALSE
