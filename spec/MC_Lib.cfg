CONSTANTS NS = 2 NB = 1 ND = 1 NMAX = 2 DEPTH = 6
SPECIFICATION MSpec
INVARIANT Inv
PROPERTIES Isolated CopiesEqual NoEffectOnError KeepsError FnOnlyBySet
CHECK_DEADLOCK FALSE
