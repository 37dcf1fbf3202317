CONSTANTS
  MaxPage = 4
  MaxForm = 0
  Follow = FALSE
SPECIFICATION Spec
INVARIANTS NoReentry NeverBad Delivered
CHECK_DEADLOCK FALSE
