SPECIFICATION Spec
CONSTRAINT Track
INVARIANTS CountOK Distinct
POSTCONDITION Report
CHECK_DEADLOCK FALSE
