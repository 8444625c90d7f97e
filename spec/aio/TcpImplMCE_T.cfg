SPECIFICATION Spec
CONSTANTS
    t1 = t1
    t2 = t2
    Thread <- Two
    Script <- ScrE
    OnConn <- ConA
    Rearm = TRUE
    OnClosing <- None
    Lives = 1
    PeerBytes = 2
    PeerEnds <- Both
    ConnFails = TRUE
    Cap = 1
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
