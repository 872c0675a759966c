SPECIFICATION Spec
CONSTANTS
  M = 6
  DMAX = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
