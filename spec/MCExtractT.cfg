SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  Quick = FALSE
INVARIANTS
  Agrees
  Complete
  Uniform
  Maximal
  Whole
CHECK_DEADLOCK FALSE
