SPECIFICATION Spec
CONSTANTS
  w1 = w1
  w2 = w2
  w3 = w3
  Task <- T1
  Worker = {w1, w2, w3}
  Caller = {"c1"}
  Script <- ScrC
  MaxEv = 0
  MaxDl = 1
  WithStop = TRUE
INVARIANTS Sound Done
SYMMETRY Sym
CHECK_DEADLOCK FALSE
