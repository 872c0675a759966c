SPECIFICATION Spec
CONSTANTS
  M = 4
  DMAX = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
