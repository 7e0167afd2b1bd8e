CONSTANTS
    BadDict = FALSE
    BadConst = FALSE
INIT Init
NEXT Next
INVARIANTS Good Right
CHECK_DEADLOCK FALSE
