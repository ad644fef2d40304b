INIT Init
NEXT Next
INVARIANTS Arithmetic Order Parsing
CHECK_DEADLOCK FALSE
