SPECIFICATION SSpec
CONSTANT NoBound = NoBound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
