SPECIFICATION Spec
CONSTANTS S = 2  NC = 2  NI = 5
INVARIANTS CountOK Distinct Fifo Conserved CntExact
PROPERTY Hidden
CHECK_DEADLOCK FALSE
