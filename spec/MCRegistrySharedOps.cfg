CONSTANTS
  Clients = {1, 2}
  Names = {"given", "count-is"}
  Args = {0, 1}
  Depth = 6
  SharedOps = TRUE
  SharedTabs = FALSE
  Emit = FALSE
INIT Init
NEXT Next
INVARIANT Private
CHECK_DEADLOCK FALSE
