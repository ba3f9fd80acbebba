SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxW = 2 MaxGate = 5
INVARIANTS Outcome Partition SerialOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
