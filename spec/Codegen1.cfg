\* every declaration of one indicator and every state of its file
CONSTANTS
  Names = {"sma"}
  MaxEntries = 1
INIT Init
NEXT Next
INVARIANTS Complete Idempotent Once
CHECK_DEADLOCK FALSE
