INIT Init
NEXT NextShown
CHECK_DEADLOCK FALSE
