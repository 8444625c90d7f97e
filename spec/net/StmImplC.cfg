SPECIFICATION Spec
CONSTANTS V13 = TRUE
 MaxApp = 1
 Good = FALSE
 MaxDam = 0
INVARIANTS Agrees InOrder QuietOk
CHECK_DEADLOCK FALSE
