SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS OwnerOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
