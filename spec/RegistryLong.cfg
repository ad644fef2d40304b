CONSTANTS
  Clients = {1, 2, 3}
  Names = {"f", "g"}
  Args = {0, 1}
  Depth = 16
  SharedOps = FALSE
  SharedTabs = FALSE
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT Private
CHECK_DEADLOCK FALSE
