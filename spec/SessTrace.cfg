CONSTANTS
  Slots = {0, 1, 2, 3, 4, 5}
  Sizes = {}
  Batches = {}
  Bars = 1000
  Faults = {}
INIT SInit
NEXT SNext
VIEW SView
INVARIANTS SVerdict SInv
CHECK_DEADLOCK FALSE
