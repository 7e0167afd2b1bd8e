CONSTANTS
    N = 2
    Sel = "all"
    WriteDirect = FALSE
    DepAfterCall = FALSE
    NoPropagate = FALSE
    FreshSource = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS Good Repairable StaleAgrees
CHECK_DEADLOCK FALSE
