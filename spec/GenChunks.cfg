CONSTANTS
  Slots = {1}
  Sizes = {0, 1, 2, 3, 4, 5, 6}
  Batches = {}
  Bars = 6
  Faults = {}
  Depth = 0
INIT CInit
NEXT CNext
INVARIANTS CReport CInv
CHECK_DEADLOCK FALSE
