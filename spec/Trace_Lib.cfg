CONSTANTS NS = 4 NB = 4 ND = 4
SPECIFICATION TSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
