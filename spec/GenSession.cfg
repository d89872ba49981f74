CONSTANTS
  Slots = {0, 1, 2}
  Sizes = {0, 1, 2, 3, 5}
  Batches = {0, 3, 9}
  Bars = 60
  Faults = {TRUE, FALSE}
  Depth = 24
INIT GInit
NEXT GNext
INVARIANT GReport
CHECK_DEADLOCK FALSE
