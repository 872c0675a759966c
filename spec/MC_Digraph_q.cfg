SPECIFICATION Spec
CONSTANTS
  N = 3
  MAXDEG = 1
  ORDERED = TRUE
INVARIANTS AlgUnion AlgProd AlgTrans Law1 Law2 Law3 Law4 Closed
CHECK_DEADLOCK FALSE
