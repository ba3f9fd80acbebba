INIT Init
NEXT Next
CONSTANTS
  MaxLen = 8
  MaxP = 3
INVARIANTS AlwaysValid Evaluable RefusedOnlyInvalid
CHECK_DEADLOCK FALSE
