SPECIFICATION Spec
CONSTANTS
  Modes = {"end", "front", "split"}
  MaxRecs = 12
  MaxCrashes = 3
INVARIANTS Inv
PROPERTIES RepairEnds
CHECK_DEADLOCK FALSE
