SPECIFICATION Spec
CONSTANTS N = 7
INVARIANTS Same
CHECK_DEADLOCK FALSE
