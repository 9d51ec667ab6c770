SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  Quick = TRUE
INVARIANTS
  Agrees
  Complete
  Uniform
  Maximal
  Whole
CHECK_DEADLOCK FALSE
