CONSTANTS
  NaiveAsUtc = FALSE
  IgnoreFold = FALSE
  WallClock = FALSE
INIT Init
NEXT Next
INVARIANTS Right NoFresh RoundTrip
CHECK_DEADLOCK FALSE
