SPECIFICATION Spec
CONSTANTS MaxN = 6 MaxW = 2 MaxGate = 7
INVARIANTS Outcome Partition SerialOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
