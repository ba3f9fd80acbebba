INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Antisym Circle Barycentric Crossing Quads
CHECK_DEADLOCK FALSE
