CONSTANT Values = {"0", "1", "3/2"}
INIT Init
NEXT Next
INVARIANTS Commutes TakesOut Order Linear Restricts SumsRestrictions Marginals Total Rearranges Normal Inverts Policies
CHECK_DEADLOCK FALSE
