SPECIFICATION Spec
CONSTANT Rq <- Req
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
