SPECIFICATION Spec
INVARIANTS Answers Export
PROPERTIES KeepsWeak
CHECK_DEADLOCK FALSE
