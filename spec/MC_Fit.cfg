INIT Init
NEXT Next
CONSTANTS
  MaxN = 6
  MaxGap = 3
  MaxP = 3
INVARIANTS Exact Whitney Polynomials Tangents LeastSq
CHECK_DEADLOCK FALSE
