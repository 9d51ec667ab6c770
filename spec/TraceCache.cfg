SPECIFICATION CSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Reached
