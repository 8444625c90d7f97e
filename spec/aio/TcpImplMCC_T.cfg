SPECIFICATION Spec
CONSTANTS
    t1 = t1
    t2 = t2
    Thread <- One
    Script <- ScrC
    OnConn <- ConC
    Rearm = TRUE
    OnClosing <- ClsC
    Lives = 2
    PeerBytes = 1
    PeerEnds <- Shut
    ConnFails = FALSE
    Cap = 1
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
