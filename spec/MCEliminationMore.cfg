CONSTANTS
  N = 4
  Cards <- MoreCards
  Salts = {0}
  MultiplyFirst = TRUE
INIT Init
NEXT Next
INVARIANTS KeepsMeaning Finds Reference
CHECK_DEADLOCK FALSE
