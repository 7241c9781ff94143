SPECIFICATION Spec
INVARIANTS LinesPrefix LinesWhole NothingLost Export
PROPERTIES Settled
CHECK_DEADLOCK FALSE
