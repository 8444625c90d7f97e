SPECIFICATION Spec
CONSTANTS V13 = FALSE
 MaxApp = 1
 Good = FALSE
 MaxDam = 1
INVARIANTS Agrees InOrder QuietOk
CHECK_DEADLOCK FALSE
