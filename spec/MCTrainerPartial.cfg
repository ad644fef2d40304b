CONSTANTS
  Depth = 5
  Atomic = FALSE
  Samples <- Few
INIT Init
NEXT Next
INVARIANTS Exact Others Repeatable
PROPERTY Whole
CHECK_DEADLOCK FALSE
