SPECIFICATION Spec
CONSTANTS V13 = FALSE
 MaxApp = 2
 Good = TRUE
 MaxDam = 1
INVARIANTS Agrees InOrder QuietOk
CHECK_DEADLOCK FALSE
