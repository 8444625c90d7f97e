SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Same
CHECK_DEADLOCK FALSE
