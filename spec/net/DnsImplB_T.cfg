SPECIFICATION Spec
CONSTANTS K = 3
 NM = 1
 Lims <- LimsB
 MaxNow = 1
 Batch = 2
INVARIANTS NoSleep Same
PROPERTIES Refines Answered
CHECK_DEADLOCK FALSE
