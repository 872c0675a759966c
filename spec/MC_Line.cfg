SPECIFICATION Spec
CONSTANTS
  NPts = 5
  XMax = 6
  AllPerms = FALSE
INVARIANTS I_Graph I_Feas I_Line
CHECK_DEADLOCK FALSE
