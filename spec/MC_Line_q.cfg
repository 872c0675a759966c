SPECIFICATION Spec
CONSTANTS
  NPts = 4
  XMax = 5
  AllPerms = FALSE
INVARIANTS I_Graph I_Feas I_Line
CHECK_DEADLOCK FALSE
