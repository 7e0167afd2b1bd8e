CONSTANTS
    Values = {1, 2}
    Chunks = 3
    Direct = FALSE
    RenameEarly = FALSE
    NoTruncate = FALSE
    PreClean = TRUE
    NoCleanup = FALSE
INIT Init
NEXT Next
INVARIANTS Good Atomic
CHECK_DEADLOCK FALSE
