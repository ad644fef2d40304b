CONSTANT Max = 4
INIT Init
NEXT Next
INVARIANTS Basics Parts Marks Windows Bars
CHECK_DEADLOCK FALSE
