SPECIFICATION Spec
CONSTANT B = 3
INVARIANTS Infinite Immediate NoWrap Order RoundTrip
CHECK_DEADLOCK FALSE
