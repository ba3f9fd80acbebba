CONSTANTS Depth = 2
          NStarts = 5
          PrintAll = FALSE
INIT Init
NEXT Next
INVARIANTS IsProper Closed Chi FlipTwice Refine Fans
CHECK_DEADLOCK FALSE
