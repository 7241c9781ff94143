SPECIFICATION Spec
INVARIANTS Independent Export
CHECK_DEADLOCK FALSE
