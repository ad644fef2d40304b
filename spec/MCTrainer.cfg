CONSTANTS
  Depth = 5
  Atomic = TRUE
  Samples <- Few
INIT Init
NEXT Next
INVARIANTS Exact Others Repeatable
PROPERTY Whole
CHECK_DEADLOCK FALSE
