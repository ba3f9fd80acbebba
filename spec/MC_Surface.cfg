CONSTANTS MaxP = 3
INIT Init
NEXT Next
INVARIANTS IsTensor Transposed Corners Leibniz
CHECK_DEADLOCK FALSE
