SPECIFICATION Spec
CONSTANTS C = 2 MaxBufs = 4 MaxBytes = 6
CONSTRAINT Bound
INVARIANTS Fifo Room REnd NonEmpty
CHECK_DEADLOCK FALSE
