CONSTANTS
  Depth = 6
  Alias = FALSE
  AliasPolicies = TRUE
  Memo = FALSE
  Forget = FALSE
INIT Init
NEXT Next
INVARIANTS FreshAnswers ResultsStay
CHECK_DEADLOCK FALSE
