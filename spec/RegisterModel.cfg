CONSTANTS
    MaxLen = 3
    WriteNewline = "empty"
    ReadNewline = "empty"
    KeyLists = FALSE
    EagerCopy = FALSE
    CacheRead = FALSE
    NoneIsMissing = FALSE
INIT Init
NEXT Next
INVARIANTS Good RoundTrip
CHECK_DEADLOCK FALSE
