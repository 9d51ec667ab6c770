SPECIFICATION Spec
CONSTANTS
  Readers = {1, 2, 3}
  HasIndex = FALSE
  SaveOnError = FALSE
  JoinFirst = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
