CONSTANTS
  N = 3
  W = 2
  KeepRecord = FALSE
  KeepFailed = FALSE
  KeepTable = FALSE
  KeepLast = FALSE
  DropEarly = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Present
CHECK_DEADLOCK FALSE
