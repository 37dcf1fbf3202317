CONSTANTS
  MaxPage = 3
  MaxForm = 2
  Follow = TRUE
SPECIFICATION Spec
INVARIANTS NoReentry NeverBad Delivered
CHECK_DEADLOCK FALSE
