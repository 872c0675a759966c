SPECIFICATION TSpec
INVARIANT Note
VIEW TView
POSTCONDITION Report
CHECK_DEADLOCK FALSE
