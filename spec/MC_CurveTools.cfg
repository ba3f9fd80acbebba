INIT Init
NEXT Next
CONSTANT MaxP = 2
INVARIANT Unified
INVARIANT ShapeKept
INVARIANT JoinOk
INVARIANT SplitJoin
CHECK_DEADLOCK FALSE
