SPECIFICATION Spec
CONSTANTS
  MaxChunks = 3
  MaxChunk = 2
  MaxTotal = 4
  MaxN = 3
  Vals = {1}
  MaxLen = 0
  KeepHist = FALSE
  CanRead = TRUE
CONSTRAINT Bounded
INVARIANTS Inv
CHECK_DEADLOCK FALSE
