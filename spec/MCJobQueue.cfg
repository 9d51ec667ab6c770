SPECIFICATION Spec
CONSTANTS
  Producers = {1, 2}
  Consumers = {11, 12}
  PerProducer = 2
  NotifyInside = TRUE
INVARIANTS Inv
PROPERTIES AllGone
CHECK_DEADLOCK TRUE
