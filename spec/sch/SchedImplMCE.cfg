SPECIFICATION Spec
CONSTANTS
  INF = 100
  w1 = w1
  w2 = w2
  w3 = w3
  Worker = {w1}
  Caller = {"a", "b"}
  NT = 2
  Script <- ScrE
  Deadlines = {0}
  MaxPost = 1
  MaxNow = 1
  B = 1
INVARIANTS TypeOK NoSleep Agree Places Timely InOrder EmptyTruth Stopped
PROPERTIES Refines 
CHECK_DEADLOCK FALSE
