SPECIFICATION Spec
CONSTANTS NS = 2  NR = 2  K = 2
INVARIANTS NoStack ProbeHasOwner
PROPERTY Delivered
CHECK_DEADLOCK FALSE
