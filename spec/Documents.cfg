INIT Init
NEXT Next
INVARIANT Show
INVARIANT SameCycles
VIEW View
CHECK_DEADLOCK FALSE
