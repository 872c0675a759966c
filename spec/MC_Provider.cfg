CONSTANTS N = 2 MaxEv = 6
SPECIFICATION Spec
INVARIANTS I_Balance I_End I_Legal I_UseOpen
