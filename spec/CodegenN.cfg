\* by simulation
CONSTANTS
  Names = {"sma", "sm", "smaa", "sm_a", "sma2", "b_2", "zz9", "adx", "adxr", "x", "stoch", "hf"}
  MaxEntries = 9
INIT Init
NEXT Next
INVARIANTS Complete Idempotent Once
CHECK_DEADLOCK FALSE
