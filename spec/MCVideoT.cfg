SPECIFICATION Spec
CONSTANTS
  MaxRecs = 5
  MaxReads = 4
  Streams = {1}
  FailSets = {{}, {1}, {2}, {1, 2}, {3}}
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Promised
CHECK_DEADLOCK FALSE
