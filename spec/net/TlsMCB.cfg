\* Versions and ciphers.
SPECIFICATION Spec
CONSTANTS
    Trusts_ = {3}
    Vers = {0, 2, 3, 4}
    Cis = {1, 2, 3, 4}
    CAs = {}
    LCs = {4, 8}
    MaxCi = 1
VIEW View
INVARIANTS Kept RangeOk Safe Highest Ordered
PROPERTY Monotone
CHECK_DEADLOCK FALSE
