SPECIFICATION Spec
INVARIANT Clean
CHECK_DEADLOCK FALSE
CONSTANTS
    N = 3
    K = 2
    W = 2
    R = 2
    TotalsLate = FALSE
    SilentFailure = FALSE
    ExitEarly = FALSE
    FirstOnly = FALSE
    PerAttempt = FALSE
    OldTotals = FALSE
