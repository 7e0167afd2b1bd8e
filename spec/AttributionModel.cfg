CONSTANTS
  Depth = 5
  Uses = 2
  WrongSkip = FALSE
  OffByOne = FALSE
  NoMark = FALSE
  GatherInner = FALSE
  StoreOfNode = FALSE
  CopyLoses = FALSE
  Unreversed = FALSE
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
