CONSTANTS MaxP = 2
          Depth = 2
INIT Init
NEXT Next
INVARIANTS IsProper Shape Isos
CHECK_DEADLOCK FALSE
