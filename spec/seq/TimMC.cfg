SPECIFICATION Spec
CONSTANT B = 2
INVARIANTS Infinite Immediate NoWrap Order RoundTrip
CHECK_DEADLOCK FALSE
