CONSTANTS Args = {1, 2} Hidden = {1, 2, 3} Vals = {0, 1} MaxLen = 6
SPECIFICATION Spec
INVARIANTS I_Exact I_PureAccepted
