CONSTANTS
  Horizon = 3
  Initial = 1
  Min1 = 1
  Max1 = 2
  Totals <- SmallTotals
  NoFinal = FALSE
  StaleAtOutput = FALSE
  NoStale = FALSE
  SortRaises = FALSE
  NotSplit = FALSE
  LateElapsed = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Progressing
