SPECIFICATION Spec
CONSTANTS
  Labels = {1, 2}
  Types = {2}
  MaxStored = 3
  MaxExpected = 3
  MaxVar = 1
  KeepHist = FALSE
  MaxLen = 0
INVARIANTS Inv Sound
CHECK_DEADLOCK FALSE
