SPECIFICATION HSpec
CONSTANT NoBound = NoBound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
