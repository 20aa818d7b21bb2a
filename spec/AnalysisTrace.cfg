SPECIFICATION ASpec
CONSTANT NoBound = NoBound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
