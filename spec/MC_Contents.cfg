CONSTANTS
  MaxPage = 2
  MaxForm = 2
  Follow = TRUE
SPECIFICATION Spec
INVARIANTS NoReentry NeverBad Delivered
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
