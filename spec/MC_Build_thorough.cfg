INIT Init
NEXT Next
CONSTANTS MaxN = 3  MaxQ = 3
INVARIANTS Lofted Hermite Gordon Inverse
CHECK_DEADLOCK FALSE
