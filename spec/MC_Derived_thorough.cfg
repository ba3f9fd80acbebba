INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS Derivatives RevLaw ExtLaw CompLaw OffLaw
CHECK_DEADLOCK FALSE
