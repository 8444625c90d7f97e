SPECIFICATION Spec
CONSTANT Rq <- Rqs
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
