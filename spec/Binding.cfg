CONSTANTS
  MaxIn = 4
  MaxOpt = 8
INIT Init
NEXT Next
INVARIANTS Emit Placed Padded OneFault
CHECK_DEADLOCK FALSE
