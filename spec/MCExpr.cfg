SPECIFICATION Spec
INVARIANTS GrammarRule RoundTrip Laws Export
CHECK_DEADLOCK FALSE
