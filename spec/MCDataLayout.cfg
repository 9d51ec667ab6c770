SPECIFICATION Spec
CONSTANTS
  Labels = {1, 2}
  Types = {1, 2}
  MaxStored = 2
  MaxExpected = 2
  MaxVar = 2
  KeepHist = FALSE
  MaxLen = 0
INVARIANTS Inv Sound
CHECK_DEADLOCK FALSE
