SPECIFICATION Spec
CONSTANT INF = 1000000000
CONSTRAINT Track
INVARIANTS TypeOK CTypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
