CONSTANT MaxLen = 5
SPECIFICATION Spec
INVARIANTS I_Restore I_Labels I_Closed I_Len
PROPERTY Terminates
