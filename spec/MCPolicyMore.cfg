CONSTANTS
  N = 4
  Salts = {0}
  LastFirst = TRUE
INIT Init
NEXT Next
INVARIANTS ValueIsRight SameView Optimal
CHECK_DEADLOCK FALSE
