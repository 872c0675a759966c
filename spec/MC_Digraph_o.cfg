SPECIFICATION Spec
CONSTANTS
  N = 2
  MAXDEG = 2
  ORDERED = TRUE
INVARIANTS AlgUnion AlgProd AlgTrans Law1 Law2 Law3 Law4 Closed
CHECK_DEADLOCK FALSE
