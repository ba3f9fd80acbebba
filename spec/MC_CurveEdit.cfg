CONSTANTS MaxP = 3
          Depth = 2
INIT Init
NEXT Next
INVARIANTS Shape IsProper RoundTrip
CHECK_DEADLOCK FALSE
