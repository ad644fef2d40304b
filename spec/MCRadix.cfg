CONSTANT Max = 4
INIT Init
NEXT Next
INVARIANTS Faster Lossless
CHECK_DEADLOCK FALSE
