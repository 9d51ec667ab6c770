SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 2
  MaxReads = 3
  Streams = {1}
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Promised
CHECK_DEADLOCK FALSE
