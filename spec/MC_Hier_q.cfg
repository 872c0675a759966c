SPECIFICATION Spec
CONSTANTS
  NPts = 5
  DMax = 1
INVARIANTS I_C10 I_C11 I_Split I_Whole
CHECK_DEADLOCK FALSE
