CONSTANTS
  Depth = 6
  Alias = TRUE
  AliasPolicies = FALSE
  Memo = FALSE
  Forget = FALSE
INIT Init
NEXT Next
INVARIANTS FreshAnswers ResultsStay
CHECK_DEADLOCK FALSE
