SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2, 3}
  Times = {1, 2, 3, 4}
  Types = {1, 2, 3}
  MaxLen = 24
  MaxRecs = 14
  MaxFiles = 3
  Ops = {"create", "cbegin", "purge", "spurge", "active", "attach", "open", "write", "close", "wait", "sync"}
  KeepHist = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
