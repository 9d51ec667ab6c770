SPECIFICATION Spec
CONSTANTS
  MaxFiles = 3
  Insts = {1, 2, 3}
  MaxTs = 1
  MaxRecs = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
