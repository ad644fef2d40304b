CONSTANTS
  N = 3
  Far = 1
INIT Init
NEXT Next
CONSTRAINT Near
INVARIANT Fine
CHECK_DEADLOCK FALSE
