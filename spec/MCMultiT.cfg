SPECIFICATION Spec
CONSTANTS
  MaxFiles = 3
  Insts = {1, 2}
  MaxTs = 1
  MaxRecs = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
