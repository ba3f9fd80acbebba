INIT Init
NEXT Next
CONSTANTS MaxN = 3  MaxQ = 2
INVARIANTS Lofted Hermite Gordon Inverse
CHECK_DEADLOCK FALSE
