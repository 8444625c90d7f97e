SPECIFICATION Spec
CONSTANTS NP = 2  NI = 3
INVARIANTS Once Ordered OneNotifier
CHECK_DEADLOCK FALSE
