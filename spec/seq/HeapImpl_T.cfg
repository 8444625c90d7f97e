SPECIFICATION Spec
CONSTANTS Elems = {1,2,3,4,5,6} Keys = {1,2,3}
INVARIANTS Same Places Order
CHECK_DEADLOCK FALSE
