SPECIFICATION Spec
CONSTANTS
  Waiters = {1, 2, 3}
  Events = 3
  Waits = 2
  Broadcast = FALSE
  EnterSeesEnd = TRUE
INVARIANTS Inv
PROPERTIES Served SomeServed AllLeave
CHECK_DEADLOCK TRUE
