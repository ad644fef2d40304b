CONSTANT Values = {"0", "1", "2", "1/3"}
INIT Init
NEXT Next
INVARIANTS Commutes TakesOut Order Linear Restricts SumsRestrictions Marginals Total Rearranges Normal Inverts Policies
CHECK_DEADLOCK FALSE
