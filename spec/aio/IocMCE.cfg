SPECIFICATION Spec
CONSTANTS
  w1 = w1
  w2 = w2
  w3 = w3
  Task <- T1
  Worker = {w1, w2}
  Caller = {"c1"}
  Script <- ScrA
  MaxEv = 1
  MaxDl = 1
  WithStop = FALSE
INVARIANTS Sound Done
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
