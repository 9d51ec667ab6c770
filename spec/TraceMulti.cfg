SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Reached
