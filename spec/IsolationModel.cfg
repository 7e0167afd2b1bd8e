CONSTANTS
    Nodes = {1, 2, 9}
    RunInPlace = FALSE
    ShallowPlan = FALSE
    ShallowEntries = FALSE
    KeepScope = FALSE
INIT Init
NEXT Next
INVARIANTS Good
CHECK_DEADLOCK FALSE
