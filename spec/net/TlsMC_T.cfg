\* Trust.
SPECIFICATION Spec
CONSTANTS
    Trusts_ = {0, 1, 2, 3}
    Vers = {}
    Cis = {}
    CAs = {1, 2, 3}
    LCs = {3, 4, 5, 6, 7, 8}
    MaxCi = 0
VIEW View
INVARIANTS Kept RangeOk Safe Highest Ordered
PROPERTY Monotone
CHECK_DEADLOCK FALSE
