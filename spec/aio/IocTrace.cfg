SPECIFICATION Spec
CONSTANT INF = 1000000000
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
