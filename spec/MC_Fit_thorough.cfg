INIT Init
NEXT Next
CONSTANTS
  MaxN = 7
  MaxGap = 3
  MaxP = 4
INVARIANTS Exact Whitney Polynomials Tangents LeastSq
CHECK_DEADLOCK FALSE
