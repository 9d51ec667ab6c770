SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Types = {7, 8, 9}
  MaxCreate = 7
  MaxScopes = 3
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
