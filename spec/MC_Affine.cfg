INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS MovesPoints Weights Rigid Frames
CHECK_DEADLOCK FALSE
