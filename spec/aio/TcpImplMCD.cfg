SPECIFICATION Spec
CONSTANTS
    t1 = t1
    t2 = t2
    Thread <- Two
    Script <- ScrD
    OnConn <- ConC
    Rearm = TRUE
    OnClosing <- None
    Lives = 1
    PeerBytes = 1
    PeerEnds <- Shut
    ConnFails = FALSE
    Cap = 1
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
