CONSTANTS
  N = 3
  Cards <- SmallCards
  Salts = {0, 1}
  MultiplyFirst = TRUE
INIT Init
NEXT Next
INVARIANTS KeepsMeaning Finds Reference
CHECK_DEADLOCK FALSE
