SPECIFICATION Spec
CONSTANTS B = 1  NT = 2  MAX = 20  LIVE = 3
INVARIANTS Disjoint Bound
PROPERTIES Refines
CHECK_DEADLOCK FALSE
