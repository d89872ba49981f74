INIT Init
NEXT NextR
VIEW View
INVARIANT Verdict
CHECK_DEADLOCK FALSE
