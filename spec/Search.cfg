CONSTANT Max = 20
SPECIFICATION Spec
INVARIANTS Right InRange
PROPERTY Ends
CHECK_DEADLOCK FALSE
