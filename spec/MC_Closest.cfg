SPECIFICATION Spec
CONSTANTS
  Size = 3
  Halvings = 3
  Ns = {2, 3, 6}
INVARIANTS InBox Final Slopes Crossing
PROPERTIES Downhill Ends
CHECK_DEADLOCK FALSE
