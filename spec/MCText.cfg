CONSTANT Max = 3
INIT Init
NEXT Next
INVARIANTS Basics Parts Marks Windows Bars
CHECK_DEADLOCK FALSE
