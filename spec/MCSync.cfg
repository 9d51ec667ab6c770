SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2, 3}
  MaxSends = 5
  Kinds = {"queue", "unicast", "broadcast"}
  KeepHist = FALSE
  MaxLen = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
