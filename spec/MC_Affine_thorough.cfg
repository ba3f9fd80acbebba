INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS MovesPoints Weights Rigid Frames
CHECK_DEADLOCK FALSE
