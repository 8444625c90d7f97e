SPECIFICATION Spec
CONSTANTS F = 7  NR = 2
INVARIANTS NotBad Linked Owned RunTop Order
CHECK_DEADLOCK FALSE
