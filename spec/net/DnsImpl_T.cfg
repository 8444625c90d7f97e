SPECIFICATION Spec
CONSTANTS K = 2
 NM = 2
 Lims <- LimsA
 MaxNow = 2
 Batch = 1
INVARIANTS NoSleep Same
PROPERTIES Refines Answered
CHECK_DEADLOCK FALSE
