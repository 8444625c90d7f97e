SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS Alive
POSTCONDITION Report
CHECK_DEADLOCK FALSE
