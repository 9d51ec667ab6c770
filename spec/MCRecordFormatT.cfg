SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  MaxReads = 2
  Streams = {1}
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Promised
CHECK_DEADLOCK FALSE
