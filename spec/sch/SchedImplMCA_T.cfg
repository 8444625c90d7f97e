SPECIFICATION Spec
CONSTANTS
  INF = 100
  w1 = w1
  w2 = w2
  w3 = w3
  Worker = {w1, w2}
  Caller = {"a", "b"}
  NT = 1
  Script <- ScrA
  Deadlines = {0, 1}
  MaxPost = 2
  MaxNow = 2
  B = 1
INVARIANTS TypeOK NoSleep Agree Places Timely InOrder EmptyTruth Stopped
PROPERTIES Refines 
CHECK_DEADLOCK FALSE
