SPECIFICATION Spec
INVARIANTS NotStuck OneWay Bounded Finite Export
PROPERTIES KeepsWeak Terminates
CHECK_DEADLOCK FALSE
