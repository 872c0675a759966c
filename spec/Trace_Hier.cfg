SPECIFICATION TSpec
INVARIANT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
