SPECIFICATION Spec
CONSTANTS
  NPts = 4
  DMax = 2
  Family = "prim"
INVARIANTS I_Cert I_C01 I_C02 I_C03 I_C04 I_C05 I_C06 I_C07 I_C08 I_Graph
CHECK_DEADLOCK FALSE
