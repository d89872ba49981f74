CONSTANTS
  MaxIn = 1
  MaxOpt = 1
INIT NInit
NEXT NNext
INVARIANT NEmit
CHECK_DEADLOCK FALSE
