CONSTANTS K = 5
          N = 3
          Flips = TRUE
INIT Init
NEXT Next
INVARIANTS IsProper SameArea Count Del NotStuck
CHECK_DEADLOCK FALSE
