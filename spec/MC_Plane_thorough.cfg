INIT Init
NEXT Next
CONSTANT N = 4
INVARIANTS Antisym Circle Barycentric Crossing Quads
CHECK_DEADLOCK FALSE
