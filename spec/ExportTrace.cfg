SPECIFICATION XSpec
CONSTANT NoBound = NoBound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
