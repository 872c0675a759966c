SPECIFICATION Spec
CONSTANTS
  NPts = 4
  DMax = 1
INVARIANTS I_Same I_Sizes
CHECK_DEADLOCK FALSE
