SPECIFICATION Spec
CONSTANTS
  MaxRecs = 3
  Times = {0, 1, 2}
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
