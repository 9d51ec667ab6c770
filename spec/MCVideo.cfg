SPECIFICATION Spec
CONSTANTS
  MaxRecs = 4
  MaxReads = 3
  Streams = {1}
  FailSets = {{}, {1}, {2}}
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Promised
CHECK_DEADLOCK FALSE
