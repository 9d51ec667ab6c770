SPECIFICATION Spec
CONSTANTS
  MaxFiles = 2
  Insts = {1, 2, 3}
  MaxTs = 1
  MaxRecs = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
