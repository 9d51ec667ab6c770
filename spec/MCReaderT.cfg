SPECIFICATION Spec
CONSTANTS
  MaxRecs = 4
  Streams = {1, 2}
  Types = {2, 3}
  MaxSize = 2
  MaxLen = 0
  KeepHist = FALSE
  Reset = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
