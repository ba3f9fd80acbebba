INIT Init
NEXT Next
CONSTANTS
  MaxLen = 6
  MaxP = 3
INVARIANTS AlwaysValid Evaluable RefusedOnlyInvalid
CHECK_DEADLOCK FALSE
