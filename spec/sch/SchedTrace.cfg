SPECIFICATION Spec
CONSTANT INF = 1000000000
CONSTRAINT Track
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
