SPECIFICATION Spec
CONSTANTS
  Producers = {1, 2}
  Consumers = {11, 12, 13}
  PerProducer = 3
  NotifyInside = TRUE
INVARIANTS Inv
PROPERTIES AllGone
CHECK_DEADLOCK TRUE
