CONSTANTS
  Clients = {1, 2}
  Names = {"f", "g"}
  Args = {0, 1}
  Depth = 5
  SharedOps = FALSE
  SharedTabs = FALSE
  Emit = TRUE
INIT Init
NEXT Next
INVARIANT Private
CHECK_DEADLOCK FALSE
