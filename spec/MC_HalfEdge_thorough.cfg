CONSTANTS Depth = 3
          NStarts = 2
          PrintAll = FALSE
INIT Init
NEXT Next
INVARIANTS IsProper Closed Chi FlipTwice Refine Fans
CHECK_DEADLOCK FALSE
