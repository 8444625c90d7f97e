SPECIFICATION Spec
CONSTANTS NT = 3  K = 2
INVARIANTS Exclusion Handed
PROPERTIES NoStarve Order
CHECK_DEADLOCK FALSE
