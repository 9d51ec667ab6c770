SPECIFICATION Spec
CONSTANTS
  Readers = {1, 2, 3}
  HasIndex = TRUE
  SaveOnError = FALSE
  JoinFirst = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
