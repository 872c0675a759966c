CONSTANTS N = 2 MaxEv = 5
SPECIFICATION Spec
INVARIANTS I_Balance I_End I_Legal I_UseOpen
