SPECIFICATION Spec
INVARIANTS LastItems InPlace Values Asked Export
CHECK_DEADLOCK FALSE
