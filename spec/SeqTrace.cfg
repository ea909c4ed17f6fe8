CONSTANTS
  N = 0
  Depth = 0
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
