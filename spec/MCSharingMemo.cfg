CONSTANTS
  Depth = 6
  Alias = FALSE
  AliasPolicies = FALSE
  Memo = TRUE
  Forget = TRUE
INIT Init
NEXT Next
INVARIANTS FreshAnswers ResultsStay
CHECK_DEADLOCK FALSE
