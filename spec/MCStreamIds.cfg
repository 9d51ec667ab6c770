SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Types = {7, 8}
  MaxCreate = 4
  MaxScopes = 3
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
