SPECIFICATION GSpec
CONSTANTS
  Sym = {1,2,3}
  M = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
