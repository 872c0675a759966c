CONSTANTS Args = {1, 2} Hidden = {1, 2} Vals = {0, 1} MaxLen = 4
SPECIFICATION Spec
INVARIANTS I_Exact I_PureAccepted
