SPECIFICATION Spec
CONSTANTS
    t1 = t1
    t2 = t2
    Thread <- Two
    Script <- ScrB
    OnConn <- None
    Rearm = TRUE
    OnClosing <- None
    Lives = 1
    PeerBytes = 3
    PeerEnds <- Shut
    ConnFails = FALSE
    Cap = 2
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
