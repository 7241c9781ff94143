SPECIFICATION Spec
INVARIANTS Byte Two Fast
CHECK_DEADLOCK FALSE
