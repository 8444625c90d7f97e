SPECIFICATION Spec
CONSTRAINT Track

POSTCONDITION Report
INVARIANTS Exclusion Handed
CHECK_DEADLOCK FALSE
