SPECIFICATION Spec
CONSTANTS F = 6  NR = 2
INVARIANTS NotBad Linked Owned RunTop Order
CHECK_DEADLOCK FALSE
