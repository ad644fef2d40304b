CONSTANTS
  Depth = 5
  Atomic = TRUE
  Samples <- Some
INIT Init
NEXT Next
INVARIANTS Exact Others Repeatable
PROPERTY Whole
CHECK_DEADLOCK FALSE
