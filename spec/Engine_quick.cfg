SPECIFICATION Spec
CONSTANTS
  N = 3
  Workers = {1, 2}
  Errs <- ErrsAll
  Rs = {1}
  WithLits = FALSE
  Interrupts = TRUE
  StartFails = TRUE
  UseLock = TRUE
  EnqueueOnFail = FALSE
  DoneOnStartup = TRUE
INVARIANTS Implements QueueOnce NoLostCounter QuietOK Bounded
PROPERTY Termination
CHECK_DEADLOCK TRUE
