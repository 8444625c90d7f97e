SPECIFICATION Spec
CONSTANTS NT = 3  K = 3
INVARIANTS OwnerOK Exclusion
PROPERTIES Woken
CHECK_DEADLOCK FALSE
