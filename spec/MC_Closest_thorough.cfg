SPECIFICATION Spec
CONSTANTS
  Size = 5
  Halvings = 6
  Ns = {2, 3, 4, 6, 11}
INVARIANTS InBox Final Slopes Crossing
PROPERTIES Downhill Ends
CHECK_DEADLOCK FALSE
