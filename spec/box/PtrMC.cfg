SPECIFICATION Spec
CONSTANTS NT = 2  NO = 2  K = 3
INVARIANTS Alive MayReturn
PROPERTIES MayDie
CHECK_DEADLOCK FALSE
