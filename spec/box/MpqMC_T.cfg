SPECIFICATION Spec
CONSTANTS NP = 2  NI = 4
INVARIANTS Once Ordered OneNotifier
CHECK_DEADLOCK FALSE
