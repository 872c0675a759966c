CONSTANTS NS = 4 NB = 4 ND = 4 D = 40 MODE = "C21"
SPECIFICATION GSpec
INVARIANT Done
CHECK_DEADLOCK FALSE
