INIT Init
NEXT Short
INVARIANT Fine
CHECK_DEADLOCK FALSE
