CONSTANTS
  N = 3
  Salts = {0, 1}
  LastFirst = FALSE
INIT Init
NEXT Next
INVARIANTS Optimal
CHECK_DEADLOCK FALSE
