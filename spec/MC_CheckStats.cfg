SPECIFICATION Spec
CONSTANTS
  NPts = 5
INVARIANTS I_Check I_Stats I_Fix
CHECK_DEADLOCK FALSE
