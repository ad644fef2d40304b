CONSTANTS
  N = 3
  Salts = {0, 1}
  LastFirst = TRUE
INIT Init
NEXT Next
INVARIANTS ValueIsRight SameView Optimal
CHECK_DEADLOCK FALSE
