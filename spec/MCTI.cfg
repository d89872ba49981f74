CONSTANTS
  Slots = {1, 2}
  Sizes = {0, 1, 2, 3}
  Batches = {0, 1, 2, 3}
  Bars = 5
  Faults = {TRUE, FALSE}
SPECIFICATION MCSpec
INVARIANTS TypeOK StreamIsBatch Causal Balanced OnlyValid
PROPERTIES Isolation Monotone
CHECK_DEADLOCK FALSE
