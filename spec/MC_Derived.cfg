INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Derivatives RevLaw ExtLaw CompLaw OffLaw
CHECK_DEADLOCK FALSE
