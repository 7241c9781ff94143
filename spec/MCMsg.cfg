SPECIFICATION Spec
INVARIANTS Views Equality Export
CHECK_DEADLOCK FALSE
