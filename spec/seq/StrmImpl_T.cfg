SPECIFICATION Spec
CONSTANTS C = 3 MaxBufs = 6 MaxBytes = 10
CONSTRAINT Bound
INVARIANTS Fifo Room REnd NonEmpty
CHECK_DEADLOCK FALSE
