SPECIFICATION Spec
CONSTANTS
    t1 = t1
    t2 = t2
    Thread <- Two
    Script <- ScrA
    OnConn <- ConA
    Rearm = FALSE
    OnClosing <- None
    Lives = 1
    PeerBytes = 0
    PeerEnds <- No
    ConnFails = FALSE
    Cap = 2
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
